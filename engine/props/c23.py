from .runtime import *

PROP = prop('C23', 'Render passes and framebuffers match the attachments of the pass',
  "The render pass of a pass index has one attachment per colour, depth or stencil attachment of the pass, in order, with its format, sample count, operations, clear value and blend state: it starts from the current state of the image when the attachment is an input and from undefined otherwise (then it is cleared), and ends in the state announced for the next use, which the recording then tracks. "
  "It waits for the state of the previous pass and makes its writes available to the state of the next one, and it is rebuilt, with its framebuffer, exactly when one of those states or the tracked state of an attachment changed. "
  "The framebuffer is made once, of the views of that pass index, as large and as layered as the largest of them and the requested size; a render pass records its own commands between the begin and the end of it, and both objects are destroyed with their holder, framebuffer first.",
  ['histories', 'configurations'], 'every set of attachments, layout history, pass index and requested size',
  'Tests call it for one history; the mock device discards descriptions, areas, views and layouts.',
  [S + 'RunnablePasses/RenderPassHolder.cpp', S + 'RunnablePasses/RenderPass.cpp'], [('render pass', S + 'RunnablePasses/RenderPassHolder.cpp: doCreateRenderPass'), ('framebuffer', S + 'RunnablePasses/RenderPassHolder.cpp: doCreateFramebuffer')],
  [('per index data', 'render pass, framebuffer, area, entries', I + 'RunnablePasses/RenderPassHolder.hpp')], ['vkCreateRenderPass', 'vkCreateFramebuffer', 'vkCmdBeginRenderPass'],
  how='Every function of the holder is shown equal to a reference model: create infos, tracked states, and the condition of rebuilding.', min=8)

H = 'crg::RenderPassHolder::'
K = ('crg::RecordContext::setLayoutState', '=crg::RecordContext::getLayoutState', '=' + G + 'getCurrentLayoutState', '=' + G + 'getNextLayoutState', 'crg::checkUndefinedInput', '=' + G + 'createImageView') + OBJ


def holder(cx):
    own = (H + 'doCreateRenderPass', H + 'doInitialiseRenderArea', H + 'PassData::cleanup')
    cx.attempt(H + 'initialise', 'rpInitialise', stops=K + own, subject='rebuilding')
    cx.attempt(H + 'doCreateRenderPass', 'rpCreate', stops=K, subject='render pass')
    cx.attempt(H + 'doInitialiseRenderArea', 'rpArea', stops=K, subject='render area')
    cx.attempt(H + 'doCreateFramebuffer', 'rpFramebuffer', stops=K, subject='framebuffer')
    cx.attempt(H + 'getBeginInfo', 'rpBeginInfo', stops=K + (H + 'doCreateFramebuffer',), subject='begin information')
    cx.attempt(H + 'begin', 'rpBegin', stops=K + (H + 'getBeginInfo',), subject='begin')
    # between begin and end the current data is that of the index
    cx.attempt('spec::rpEndGiven', 'rpEndWanted', stops=K, subject='end')
    cx.attempt(H + 'createBlendState', 'rpBlend', subject='blend state')


def passes(cx):
    cx.attempt('crg::RenderPass::doRecordInto', 'rpRecord', stops=(H + 'initialise', H + 'begin', H + 'end'), subject='commands of a render pass')


def release(cx):
    cx.attempt(H + 'PassData::cleanup', 'rpClean', stops=OBJ, subject='release of an index')
    cx.attempt(H + '~RenderPassHolder', 'rpDestroy', stops=(H + 'PassData::cleanup',), subject='release of the holder')


RULES = [holder, passes, release]
