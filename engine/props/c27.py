from .runtime import *

PROP = prop('C27', 'Timers use their own query pairs, and only read what was written',
  "Each timer takes two pairs of timestamp queries of its own: the shared offset moves by four per timer and the shared pool holds four queries per node plus four for the graph; a timer without a given pool creates and destroys its own. "
  "Beginning a measure swaps the pairs, resets the two queries of the pair now current and writes its first; ending writes its second and marks the pair written. "
  "The GPU time is read back, waiting for 64-bit results, only from a pair both notified and written, whose marks are then cleared; it is the difference of the two timestamps times the timestamp period of the device, and zero otherwise.",
  ['histories', 'schedules'], 'every sequence of notifications, measures and readings, every number of timers',
  'The mock device of the tests answers constant timestamps and a period of one.',
  [S + 'FramePassTimer.cpp', I + 'FramePassTimer.hpp', S + 'RunnableGraph.cpp', S + 'RunnablePass.cpp'],
  [('timer', S + 'FramePassTimer.cpp'), ('shared pool', S + 'RunnableGraph.cpp')], [('query pairs', 'offset, notified and written marks', I + 'FramePassTimer.hpp')], ['vkCmdWriteTimestamp', 'vkGetQueryPoolResults'],
  how='Every function of the timer and of its block is shown equal to a reference model; the pool size and the offsets handed to the timers are compared at both creation sites.', min=15)

F = T
ST = OBJ + ('crg::createQueryPool', T + 'stop')
TS = ('m_scope', 'm_name', 'm_timerQueries', 'm_ownPool', 'm_queries', 'm_cpuTime', 'm_gpuTime')


def lifetime(cx):
    cx.attempt(F + 'FramePassTimer', 'timerBorrow', only_state=TS, pred=sig('', '', '', '', ''), stops=ST, subject='timer/shared pool')
    cx.attempt(F + 'FramePassTimer', 'timerOwn', only_state=TS, pred=sig('', '', ''), stops=ST, subject='timer/own pool')
    cx.attempt(F + '~FramePassTimer', 'timerDestroy', only_state=TS, stops=ST, ignore_ev=('cb',))
    cx.attempt('crg::createQueryPool', 'queryPool', stops=OBJ)


def measures(cx):
    cx.attempt(F + 'notifyPassRender', 'timerNotify', stops=ST)
    cx.attempt(F + 'reset', 'timerReset', stops=ST)
    cx.attempt(F + 'beginPass', 'timerBegin', stops=ST)
    cx.attempt(F + 'endPass', 'timerEnd', stops=ST)
    cx.attempt(F + 'retrieveGpuTime', 'timerRetrieve', stops=ST, ignore_state=('m_cpuTime',))


def blocks(cx):
    B = 'crg::FramePassTimerBlock::'
    cx.attempt(B + 'FramePassTimerBlock', 'blockCreate', pred=sig('crg::FramePassTimer &'), stops=ST, subject='block/create')
    cx.attempt(B + 'FramePassTimerBlock', 'blockMove', pred=sig('Block'), stops=ST, subject='block/move')
    cx.attempt(B + '~FramePassTimerBlock', 'blockDestroy', stops=ST)


def shared(cx):
    k = dict(ret=False, state=False, only_names=(T + 'FramePassTimer', 'crg::createQueryPool'), argmask={'crg::createQueryPool': (1,), T + 'FramePassTimer': (1,)})
    cx.attempt(G + 'RunnableGraph', 'graphCreate', n=5, subject='graph timer',
               stops=OBJ + DTORS + (R + 'initialise', T + 'FramePassTimer', 'crg::Fence::Fence', 'crg::createQueryPool', 'crg::FramePass::createRunnable', 'crg::ContextResourcesCache::createImage', 'crg::ContextResourcesCache::createImageView'), **k)
    cx.attempt(R + 'RunnablePass', 'passCreate', n=5, subject='pass timer',
               stops=OBJ + DTORS + (R + 'PassData::PassData', T + 'FramePassTimer', 'crg::LayerLayoutStatesHandler::setLayoutState', 'crg::RecordContext::RecordContext'), **k)


RULES = [lifetime, measures, blocks, shared]
