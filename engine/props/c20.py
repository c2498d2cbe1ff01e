from .runtime import *

PROP = prop('C20', 'A disabled pass records nothing and is skipped when looking ahead',
  "While a pass is disabled its recording issues no command, runs no action or callback and initialises nothing; all it does is register its implicit transitions (and keep the recording state if it is resettable). "
  "Its answered index is the invalid one, its timer is not told it is rendered, it is not initialised at graph creation, and it is passed over when the pipeline state and image states following a pass are determined. "
  "An enabled pass answers the index its callback gives, and is initialised for that index, once, before its first recording.",
  ['configurations', 'histories'], 'every pattern of enabled passes, changing between recordings',
  'Tests use one or two disabled passes, and never disable a pass between creation and recording.',
  [S + 'RunnablePass.cpp', S + 'RunnableGraph.cpp', I + 'RunnablePass.hpp'],
  [('pass recording', S + 'RunnablePass.cpp'), ('look-ahead', S + 'RunnableGraph.cpp: getNextState, gatherNextImageLayouts')], (), ['recorded commands', 'answered indices'],
  how='Each call of the pass recording is shown to be guarded by the enabled test (except registering implicit transitions); index, notification, look-ahead and creation are compared with reference models.', min=8)


def guarded(cx):
    guarded_by(cx, R + 'recordInto', lambda a: 'isEnabled' in str(a) and 'GetValueCallbackT' in str(a), ('crg::RecordContext::registerImplicitTransition',), PASS + ('crg::RecordContext::registerImplicitTransition',), 'only when enabled')
    cx.attempt(R + 'recordInto', 'recordPass', stops=PASS, only_names=(R + 'initialise',), state=False, ret=False, subject='initialised once')
    cx.attempt(R + 'initialise', 'initialisePass')
    cx.attempt(R + 'recordInto', 'recordPass', stops=PASS + ('crg::RecordContext::registerImplicitTransition',), only_names=('crg::RecordContext::registerImplicitTransition',), state=False, ret=False, subject='transitions registered')


def index(cx):
    cx.attempt(R + 'recordCurrentInto', 'recordCurrent', stops=FN)
    cx.attempt(R + 'reRecordCurrent', 'reRecord', stops=FN)
    cx.attempt(R + 'getIndex', 'passIndex')
    cx.attempt(R + 'notifyPassRender', 'notifyPass', stops=FN)


def lookahead(cx):
    cx.attempt(G + 'record', 'recordGraph', stops=GRAPH, only_names=('crg::RecordContext::setNextPipelineState',), state=False, ret=False, subject='look-ahead')


def creation(cx):
    cx.attempt(G + 'RunnableGraph', 'graphCreate', n=5, subject='initialised at creation', only_names=(R + 'initialise',), state=False, ret=False,
               stops=OBJ + DTORS + (R + 'initialise', T + 'FramePassTimer', 'crg::Fence::Fence', 'crg::createQueryPool', 'crg::FramePass::createRunnable', 'crg::ContextResourcesCache::createImage', 'crg::ContextResourcesCache::createImageView'))


RULES = [guarded, index, lookahead, creation]
