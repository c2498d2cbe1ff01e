from .common import *

PROP = prop('C21', 'Copy, blit and clear commands address exactly the requested regions',
  "The ready-made copy, blit and clear actions first bring their views to the transfer source or destination layout, then record one command on exactly those images with the base level and base layer of each view, and the requested offsets and extents (an end is its offset plus its extent), and finally bring the target to the final layout if one is given. "
  "The transfer passes (buffer to buffer, buffer to image, image to buffer, image blit, image copy) record for each source and target pair one command with the pair's images or buffers, subresource ranges, offsets and sizes. "
  "A clear uses the colour command for colour formats and the depth stencil one otherwise, with the given value.",
  ['inputs', 'configurations'], 'every view, attachment, offset, extent, format and number of source/target pairs',
  'The mock device discards the regions: no test looks at any argument of a transfer command.',
  [S + 'RecordContext.cpp', S + 'RunnablePasses/'], [('ready-made actions', S + 'RecordContext.cpp'), ('transfer passes', S + 'RunnablePasses/')],
  (), ['arguments of vkCmdCopy*, vkCmdBlitImage, vkCmdClear*'],
  how='The closures the action factories return, applied to symbolic arguments, and the record functions of the transfer passes, with their loops, are shown equal to reference models.', min=20)

R = 'crg::RecordContext::'
ACT = (MB, R + 'runImplicitTransition', '=crg::ContextResourcesCache::createImage')
PASS = (MB, '=crg::RunnableGraph::createImage', '=crg::RunnableGraph::getNextLayoutState', '=crg::RunnableGraph::getCurrentLayoutState')


def action(cx, q, spec, n):
    args = [SymT('rc', 'crg::RecordContext'), SymT('cmd', 'VkCommandBuffer'), SymT('index', 'unsigned int')]
    cx.attempt_lambda(R + q, spec, args, n=n, stops=ACT, subject='%s/%d' % (q, n))


def actions(cx):
    action(cx, 'copyImage', 'copyImage', 4)
    action(cx, 'blitImage', 'blitImage', 8)
    action(cx, 'clearAttachment', 'clearAttach', 2)
    action(cx, 'clearAttachment', 'clearView', 3)


def passes(cx):
    for q, s in (('BufferCopy', 'bufferCopy'), ('BufferToImageCopy', 'bufferToImage'), ('ImageToBufferCopy', 'imageToBuffer'),
                 ('ImageBlit', 'imageBlit'), ('ImageCopy', 'imageCopy')):
        cx.attempt('crg::%s::doRecordInto' % q, s, stops=PASS)


RULES = [actions, passes]
