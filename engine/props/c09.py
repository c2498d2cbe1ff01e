from .runtime import *
from sa.terms import contains, fld, ZERO, show

PROP = prop('C09', 'Objects a graph or a pass creates for itself are released exactly once',
  "Every semaphore, fence, command buffer, command pool and query pool a runnable graph or a runnable pass creates is recorded in its owner, and released exactly once, with the device and the allocator that made it, when that owner ends; what was never created is not released. "
  "Moving the data of a pass index hands its objects over and leaves nothing to release behind. "
  "The passes of a graph end before the command pool, the query pool and the images they use do, and a timer that borrows its queries releases none.",
  ['histories', 'programs'], 'every graph and pass created and destroyed, with every set of functions the device offers',
  'The mock device of the tests counts nothing: neither a leak nor a double release shows.',
  [S + 'RunnableGraph.cpp', S + 'RunnablePass.cpp', S + 'FramePassTimer.cpp', I + 'FrameGraphPrerequisites.hpp', I + 'RunnablePass.hpp', I + 'RunnableGraph.hpp'],
  [('graph objects', S + 'RunnableGraph.cpp: RunnableGraph::RunnableGraph, ~RunnableGraph'), ('pass objects', S + 'RunnablePass.cpp: PassData'), ('owned objects', I + 'FrameGraphPrerequisites.hpp: ContextObjectT')],
  (('m_semaphore, m_commandBuffer, m_commandPool, m_timerQueries', 'objects of a graph', I + 'RunnableGraph.hpp'), ('semaphore, fence, commandBuffer', 'objects of an index of a pass', I + 'RunnablePass.hpp: PassData')),
  ['vkDestroySemaphore', 'vkFreeCommandBuffers', 'vkDestroyCommandPool', 'vkDestroyQueryPool', 'vkDestroyFence'],
  how='Creation, move and destruction of every owner are shown equal to reference models (events, guards, arguments and what the owner keeps), closures given as destroyers included; the order of destruction is read off the order of the members.', min=30)

PD = R + 'PassData::'
NEW = OBJ + DTORS + (R + 'initialise', T + 'FramePassTimer', 'crg::Fence::Fence', 'crg::createQueryPool', 'crg::FramePass::createRunnable', 'crg::ContextResourcesCache::createImage', 'crg::ContextResourcesCache::createImageView')
OBJECTS = ('vkCreateSemaphore', 'vkAllocateCommandBuffers', 'vkCreateCommandPool', 'crg::createQueryPool', 'crg::Fence::Fence') + OBJ


def of_a_graph(cx):
    q = G + 'RunnableGraph'
    cx.attempt(q, 'graphCreate', n=5, subject='creation of a graph', stops=NEW, only_names=OBJECTS, only_state=('m_semaphore', 'm_commandBuffer'), ret=False,
               argmask={'crg::createQueryPool': (1, 2), 'crg::Fence::Fence': (2,)})
    cx.attempt(G + '~RunnableGraph', 'graphDestroy', stops=OBJ + DTORS, state=False, ignore_ev=DTORS, subject='end of a graph')
    r = cx.run(q, stops=NEW)
    for m, made in (('m_timerQueries', 'crg::createQueryPool'), ('m_commandPool', 'vkCreateCommandPool')):
        o, c, d = (r.read(r.this, m, x) for x in ('object', 'context', 'destroy'))
        if contains(o, lambda t: t.k == 'unk'):
            cx.undec('creation of a graph: ' + m, 'what it holds is not understood', r.where)
            continue
        cx.require(contains(o, lambda t: t.k == 'res' and t.a[0].endswith(made)), 'creation of a graph: %s holds what was created' % m, 'it holds ' + show(o)[:150], r.where)
        cx.require(c is r.params[-1], 'creation of a graph: %s, its context' % m, 'another context than the one it was made with', r.where)
        cx.require(d.k == 'lam' or d is not ZERO, 'creation of a graph: %s is released' % m, 'nothing releases it', r.where)
    pick = lambda m: lambda r: (lambda d: d if d.k == 'lam' else None)(r.read(r.this, m, 'destroy'))
    own = lambda r: r.value
    cx.attempt_lambda(q, 'dropQueryPool', n=5, stops=NEW, pick=pick('m_timerQueries'), specpick=own, state=False, subject='release of the query pool')
    cx.attempt_lambda(q, 'dropCommandPool', n=5, stops=NEW, pick=pick('m_commandPool'), specpick=own, state=False, subject='release of the command pool')


def of_a_pass(cx):
    k = OBJ + DTORS + ('crg::Fence::Fence',)
    cx.attempt(PD + 'PassData', 'passDataCreate', n=3, stops=k, ignore_ev=DTORS, only_state=('semaphore', 'commandBuffer', 'initialised'), subject='creation of an index')
    cx.attempt(PD + 'PassData', 'passDataMove', n=1, pred=lambda f: f['params'][0]['t'].endswith('&&'), stops=OBJ + DTORS, only_state=('semaphore', 'commandBuffer', 'initialised', 'fence'), only_names=('vkCreateSemaphore',), subject='move of an index')
    cx.attempt(PD + '~PassData', 'passDataDestroy', stops=OBJ + DTORS, state=False, ignore_ev=DTORS, subject='end of an index')
    cx.attempt(R + 'doCreateCommandBuffer', 'ownCommandBuffer', stops=OBJ, subject='command buffer of an index')


def pools(cx):
    cx.attempt('crg::createQueryPool', 'queryPool', stops=OBJ, subject='query pool')
    for f in cx.p.find('crg::ContextObjectT::~ContextObjectT'):
        s = 'dropCommands' if 'CommandPool' in f['cls'] else 'dropQueries' if 'QueryPool' in f['cls'] else None
        if s:
            cx.attempt(f['sq'], s, pred=lambda g, f=f: g is f, subject='end of an owned ' + ('command pool' if s == 'dropCommands' else 'query pool'))
    for f in cx.p.find('crg::ContextObjectT::ContextObjectT', 3):
        s = 'ownCommands' if 'CommandPool' in f['cls'] else 'ownQueries' if 'QueryPool' in f['cls'] else None
        if s:
            cx.attempt(f['sq'], s, pred=lambda g, f=f: g is f, only_state=('object', 'destroy'), subject='owning a ' + ('command pool' if s == 'ownCommands' else 'query pool'))
    cx.attempt(T + '~FramePassTimer', 'timerDestroy', state=False, stops=OBJ + ('crg::createQueryPool', T + 'stop'), ignore_ev=('cb',), subject='end of a timer')
    cx.attempt('crg::Fence::~Fence', 'fenceDestroy', stops=OBJ, subject='end of a fence')


def order(cx):
    """Members end in the reverse order of their declaration, unless the destructor releases them first."""
    fs = [f['n'] for f in cx.p.records.get('crg::RunnableGraph', {}).get('fields') or []]
    if 'm_passes' not in fs:
        return cx.undec('order of release', 'the passes of a graph are not where they were', '')
    r = cx.run(G + '~RunnableGraph', stops=OBJ + DTORS)
    early = any(o.ev.kind == 'cont' and o.ev.name == 'clear' and 'm_passes' in show(o.ev.args[0]) for o in r.occs)
    for m in ('m_commandPool', 'm_timerQueries', 'm_resources'):
        if m in fs:
            cx.require(early or fs.index('m_passes') > fs.index(m), 'order of release: passes, then %s' % m, 'the passes are released after what they use', I + 'RunnableGraph.hpp (crg::RunnableGraph::%s)' % m)


RULES = [of_a_graph, of_a_pass, pools, order]
