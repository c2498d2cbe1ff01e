from .runtime import *

PROP = prop('C07', 'A run records, then submits once with the awaited semaphores and fence',
  "Running a graph records it, then submits its command buffer exactly once, waiting on each distinct non-null semaphore given with the stage given for it, signalling the graph's own semaphore and fence; the fence is reset and pending deletions are run before the submission. "
  "The semaphore returned is the one the submission signals, to be waited for at the stages the graph ends in. "
  "Every pass and the graph itself are told they are rendered before the submission, and the forms taking one semaphore or none behave like the list form with that semaphore, or with none when it is null.",
  ['inputs', 'histories'], 'every list of semaphores, null and duplicate entries included, and every number of runs',
  'The mock device of the tests ignores what is submitted.',
  [S + 'RunnableGraph.cpp', S + 'RunnablePass.cpp'], [('run', S + 'RunnableGraph.cpp: run'), ('semaphore conversion', S + 'RunnablePass.cpp: convert')],
  (), ['vkQueueSubmit', 'returned semaphores'],
  how='The run functions and the semaphore conversion are shown equal to reference models: calls, guards, arguments, order and result.', min=5)


def run(cx):
    cx.attempt(G + 'run', 'runGraph', pred=sig('vector', ''), stops=GRAPH, subject='run/list',
               order=((G + 'record', 'vkQueueSubmit'), ('crg::Fence::reset', 'vkQueueSubmit'), (G + 'record', 'crg::Fence::reset'), ('crg::Fence::reset', 'crg::DeletionQueue::clear'),
                      ('crg::DeletionQueue::clear', 'vkQueueSubmit'), (R + 'notifyPassRender', 'vkQueueSubmit'), (T + 'notifyPassRender', 'vkQueueSubmit'), (G + 'record', R + 'notifyPassRender')))


def overloads(cx):
    cx.attempt(G + 'run', 'runGraphOne', pred=sig('!vector', ''), stops=RUN, subject='run/one')
    cx.attempt(G + 'run', 'runGraphNone', pred=sig(''), stops=RUN, subject='run/none')


def convert(cx):
    cx.attempt('crg::convert', 'semaphores', pred=sig('SemaphoreWait', '', ''))


RULES = [run, overloads, convert]
