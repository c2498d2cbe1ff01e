from .runtime import *

PROP = prop('C31', 'The state of a view comes from the recording, the inputs, or the last run',
  "The current state of an image range is what the recording tracks; if that is undefined, the state the graph was given as input for it; if that is undefined too, its final state in the previous recording; a state found outside the recording becomes tracked by it. "
  "The state following a pass is what is announced for the next pass, else the output state asked of the graph, else the state the pass itself uses; inputs, outputs and final states are given and asked for the same image range whichever way, a merged view by the source view of the pass index. "
  "A created pass announces, for every view of its images (every view merged into it when there are some) and every buffer, the layout, access and stage its role asks for.",
  ['histories', 'inputs'], 'every image range, recording state, input, output and final state',
  'Tests never combine inputs, previous runs and the current recording for the same image.',
  [S + 'RunnableGraph.cpp', S + 'RunnablePass.cpp'], [('state lookup', S + 'RunnableGraph.cpp: getCurrentLayoutState, getNextLayoutState'), ('announced states', S + 'RunnablePass.cpp: constructor')],
  [('final states', 'what the last recording ended with', I + 'FrameGraph.hpp')], ['source and destination layouts of barriers'],
  how='The lookup functions and the pass constructor are shown equal to reference models: order of the sources, arguments, results and tracked state.', min=8)


def lookup(cx):
    cx.attempt(G + 'getCurrentLayoutState', 'currentState', pred=sig('', '', '', ''), stops=STATE, subject='current state')
    cx.attempt(G + 'getCurrentLayoutState', 'currentViewState', pred=sig('', ''), subject='current state of a view',
               stops=((lambda f: f['sq'] == G + 'getCurrentLayoutState' and len(f['params']) == 4 and G + 'current'),))
    cx.attempt(G + 'getNextLayoutState', 'nextViewState', stops=STATE + ('=crg::RunnablePass::getLayoutState',))
    cx.attempt(G + 'getOutputLayoutState', 'outputViewState', stops=STATE)


def announced(cx):
    cx.attempt(R + 'RunnablePass', 'passCreate', n=5, subject='announced states', only_names=('crg::LayerLayoutStatesHandler::setLayoutState',), only_state=('m_imageLayouts', 'm_bufferAccesses', 'm_pipelineState'),
               stops=OBJ + DTORS + (R + 'PassData::PassData', T + 'FramePassTimer', 'crg::LayerLayoutStatesHandler::setLayoutState', 'crg::RecordContext::RecordContext'))


def given(cx):
    H = 'crg::LayerLayoutStatesHandler::'
    k = (H + 'setLayoutState', '=' + H + 'getLayoutState', '=crg::RecordContext::getLayoutState', '=crg::RecordContext::getAccessState')
    v, r = dict(pred=sig('ImageViewData', ''), stops=k), dict(stops=k)
    for kind, giv in (('Input', 'input'), ('Output', 'output')):
        cx.attempt(FG + 'add' + kind, 'give' + kind, n=4, subject='given ' + giv, **r)
        cx.attempt(FG + 'add' + kind, 'give' + kind + 'View', subject='given %s of a view' % giv, **v)
        cx.attempt(FG + 'get%sLayoutState' % kind, 'given' + kind, n=3, subject=giv + ' state', **r)
        cx.attempt(FG + 'get%sLayoutState' % kind, 'given%sView' % kind, n=1, subject=giv + ' state of a view', **r)
    cx.attempt(FG + 'getOutputLayoutStates', 'givenOutputs')


def final(cx):
    k = ('=crg::RecordContext::getLayoutState', '=crg::RecordContext::getAccessState')
    three = lambda f: f['sq'] == FG + 'getFinalLayoutState' and len(f['params']) == 3 and '=' + FG + 'finalRange'
    cx.attempt(FG + 'getFinalLayoutState', 'finalRange', n=3, stops=k, subject='final state')
    cx.attempt(FG + 'getFinalLayoutState', 'finalView', n=2, stops=k + (three,), subject='final state of a view')
    cx.attempt(FG + 'getFinalAccessState', 'finalBuffer', stops=k)
    cx.attempt(FG + 'registerFinalState', 'keepFinal', subject='final state kept')


RULES = [lookup, announced, given, final]
