from .common import *

PROP = prop('C18', 'Implicit transitions run once, in place of a disabled pass',
  "When the state of a view is needed, the implicit transition recorded first for that very view is consumed, and its action is run, with the recording, the command buffer and the pass index, only if the pass it belongs to is disabled; views nothing was registered for are left alone. "
  "Announcing the next pass moves the next pipeline state to current and the current one to previous, and replaces the states announced for the next pass. "
  "Merging the outcome of another graph's recording adds the image and buffer states it tracked without replacing those already tracked.",
  ['histories', 'inputs'], 'every order of registrations, queries, pass announcements and merges',
  'Tests register at most one transition per view and never re-enable a pass between registration and use.',
  [S + 'RecordContext.cpp'], [('implicit transitions', S + 'RecordContext.cpp'), ('pipeline state rotation', S + 'RecordContext.cpp')],
  [('pending transitions', 'transitions registered and not yet consumed', I + 'RecordContext.hpp')], ['callbacks invoked while recording'],
  how='The registration, lookup, consumption, rotation and merge functions are shown equal to reference models: calls, guards, arguments and resulting state.', min=5)

R = 'crg::RecordContext::'


def transitions(cx):
    cx.attempt(R + 'registerImplicitTransition', 'registerTransition3', n=3, subject='register/3')
    cx.attempt(R + 'registerImplicitTransition', 'registerTransition1', n=1, subject='register/1')
    cx.attempt(R + 'runImplicitTransition', 'runTransition')


def rotation(cx):
    cx.attempt(R + 'setNextPipelineState', 'nextPipeline')
    cx.attempt(R + 'addStates', 'mergeContext')


RULES = [transitions, rotation]
