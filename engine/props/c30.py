from .runtime import *
from sa.terms import show

P = 'crg::PipelineHolder::'
PROP = prop('C30', 'A replaced pipeline is destroyed once, when the next frame is submitted',
  "Replacing a pipeline does not destroy it at once: its destruction is queued, for that very pipeline, and the slot is emptied. "
  "Whenever a graph is run, after its previous submission has been waited for and before the new one, everything queued so far is run once, in the order it was queued, and forgotten; what is queued meanwhile waits for the next time. "
  "Emptying the queue twice runs nothing twice.",
  ['histories', 'schedules'], 'every sequence of replacements and runs',
  'The tests replace pipelines at most once per graph, and their mock device does not notice when a pipeline is destroyed.',
  [I + 'GraphContext.hpp', S + 'RunnablePasses/PipelineHolder.cpp', S + 'RunnableGraph.cpp'],
  [('queue', I + 'GraphContext.hpp: DeletionQueue'), ('replacement', S + 'RunnablePasses/PipelineHolder.cpp: resetPipeline'), ('point in time', S + 'RunnableGraph.cpp: RunnableGraph::run')],
  (('m_toDelete', 'releases waiting', I + 'GraphContext.hpp: DeletionQueue'),), ['vkDestroyPipeline', 'vkQueueSubmit'],
  how='The queue, the replacement and the run of a graph are shown equal to reference models, the closure queued included; moves are modelled as leaving their source empty.', min=8)


def queue(cx):
    cx.attempt('crg::DeletionQueue::push', 'later', subject='queueing')
    cx.attempt('crg::DeletionQueue::clear', 'laterDone', subject='emptying')
    # a release that queues another one must not see it dropped
    r = cx.run('crg::DeletionQueue::clear', log=True)
    ran = [o.pos for o in r.occs if o.ev.kind == 'cb']
    if not ran:
        return cx.undec('queued meanwhile', 'nothing runs here', r.where)
    lost = [o for o in r.occs if o.pos > min(ran) and (o.ev.kind == 'set' and o.ev.name == 'm_toDelete' or o.ev.kind == 'cont' and o.ev.name in ('clear', 'erase', 'pop_back', 'resize', 'assign') and o.ev.args[0] is r.read(r.this, 'm_toDelete') or o.ev.kind == 'cont' and o.ev.name == 'clear' and show(o.ev.args[0]) == 'this.m_toDelete')]
    cx.require(not lost, 'queued meanwhile', 'the queue is emptied after what was in it has run: what was queued meanwhile is lost', lost[0].where if lost else r.where)


def replacement(cx):
    cx.attempt(P + 'resetPipeline', 'plReset', stops=('crg::DeletionQueue::push',) + OBJ, only_state=('m_pipelines',), subject='replacement')

    def pick(r):
        e = r.ev(name='crg::DeletionQueue::push')
        return e[0].ev.args[1] if len(e) == 1 else None
    cx.attempt_lambda(P + 'resetPipeline', 'dropPipeline', stops=('crg::DeletionQueue::push',) + OBJ, pick=pick, specpick=lambda r: r.value, state=False, subject='what is queued')
    r = cx.run(P + 'resetPipeline', stops=('crg::DeletionQueue::push',) + OBJ)
    f = pick(r)
    if f is None or f.k != 'lam' or not isinstance(f.a[1], tuple):
        return cx.undec('what is queued: on its own', 'no closure found', r.where)
    cx.require(not any(c[2] for c in f.a[1]), 'what is queued: on its own', 'it refers to variables that are gone when it runs', r.where)


def moment(cx):
    names = ('crg::Fence::reset', 'crg::DeletionQueue::clear', 'vkQueueSubmit')
    cx.attempt(G + 'run', 'runGraph', pred=sig('vector', ''), stops=GRAPH + ('=crg::FrameGraph::getFinalStates', '=crg::RecordContext::getCurrPipelineState'), subject='moment of release', only_names=names, state=False, ret=False,
               argmask={'vkQueueSubmit': (0, 1, 2, 3)}, order=tuple(zip(names, names[1:])))


RULES = [queue, replacement, moment]
