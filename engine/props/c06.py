from .runtime import *

PROP = prop('C06', 'A graph recording runs every pass once, in order, in one command buffer',
  "Recording a graph with passes waits for its fence, resets its command buffer, begins it for one-time submission, records every pass of the graph exactly once and in order into it between the begin and end timestamps of the graph, stores the index each pass answers, and ends the command buffer; nothing of this happens for a graph without passes. "
  "Before each pass the recording is told what follows it: the pipeline state of the next enabled pass (its own if there is none) and, for the ranges it uses, the states of the first enabled later pass using them, or the output states of the graph for the last pass. "
  "A pass recording its own command buffer waits for its fence, begins the buffer, allocated on first use, records once, and ends it; the outcome of dependencies is merged before recording and the final state registered after it.",
  ['configurations', 'histories'], 'every list of passes, any subset of them disabled, any dependencies, any number of recordings',
  'Tests record a handful of short graphs whose passes are mostly enabled and never look at what is announced to them.',
  [S + 'RunnableGraph.cpp', S + 'RunnablePass.cpp'],
  [('graph recording', S + 'RunnableGraph.cpp: RunnableGraph::record'), ('pass recording', S + 'RunnablePass.cpp: recordOne, recordCurrentInto, reRecordCurrent, resetCommandBuffer')],
  [('recorded indices', 'per graph, the index each pass answered', I + 'RunnableGraph.hpp: m_states')], ['vkBeginCommandBuffer', 'vkEndCommandBuffer', 'record callbacks'],
  how='The recording functions, with everything they call inlined up to the pass recording, are shown equal to reference models: calls, guards, loop structure, arguments, order on the command buffer and resulting state.', min=5)


def graph(cx):
    cx.attempt(G + 'record', 'recordGraph', stops=GRAPH, twins=(('crg::rungrf::getNextState', 'nextState'), ('crg::rungrf::gatherNextImageLayouts', 'nextLayouts'), ('crg::rungrf::mergeRanges', 'commonRanges')),
               order=(('crg::Fence::wait', 'vkResetCommandBuffer'), ('crg::RecordContext::addStates', 'vkBeginCommandBuffer'), ('vkEndCommandBuffer', FG + 'registerFinalState')))


def passes(cx):
    cx.attempt(R + 'recordCurrentInto', 'recordCurrent', stops=FN)
    cx.attempt(R + 'reRecordCurrent', 'reRecord', stops=FN)
    cx.attempt(R + 'recordOne', 'recordOwn', stops=FN, order=(('crg::Fence::wait', 'vkBeginCommandBuffer'),))
    cx.attempt(R + 'resetCommandBuffer', 'resetOwn', stops=FN, order=(('crg::Fence::wait', 'vkResetCommandBuffer'),))


RULES = [graph, passes]
