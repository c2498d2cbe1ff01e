from .common import *

PROP = prop('C01', 'Image barriers go from the tracked state to the requested state, never skipped',
  "When a recording asks for an image range to be in a given layout, access and stage, a pipeline barrier covering that range is recorded whenever the request is forced, or the requested layout is defined and the layout or stage differs from the state tracked for the range (the caller's initial layout if nothing is tracked); otherwise none is recorded. "
  "The source side of the barrier (layout, access, stage) is that tracked or initial state and its destination side is exactly the requested state, on every overload. "
  "On a device without separate depth/stencil layouts, a depth-only or stencil-only request on a combined format covers both aspects.",
  ['inputs', 'histories'], 'every image format, range, prior tracked state, initial layout, requested state, force flag and overload',
  'Tests record a few fixed graphs on a mock device and never look at barrier fields; the property ranges over every prior state and request.',
  [S + 'RecordContext.cpp', I + 'RecordContext.hpp'],
  [('image memory barrier emission', S + 'RecordContext.cpp'), ('range widening for combined depth/stencil', S + 'RecordContext.cpp')],
  [('tracked layouts', 'last state recorded for each subresource', S + 'LayerLayoutStatesHandler.cpp')],
  ['arguments of vkCmdPipelineBarrier'],
  how='Each of the six image barrier entry points is evaluated symbolically (callees inlined) and its calls, their guards and arguments, and the tracked state it leaves are shown equal to a reference model.', min=12)

ST = ('crg::addSubresourceRangeLayout', '=crg::getSubresourceRangeLayout', '=crg::getVirtualRange', '=crg::ContextResourcesCache::createImage')
F = 'crg::RecordContext::memoryBarrier'


def barriers(cx):
    for spec, pred in (
            ('imageBarrier', sig('', 'ImageData&&!ImageView', 'VkImageViewType', '', 'VkImageLayout', 'LayoutState', '')),
            ('imageBarrierView5', sig('', 'ImageViewData', 'VkImageLayout', 'LayoutState', '')),
            ('imageBarrierView4', sig('', 'ImageViewData', 'LayoutState', '')),
            ('imageBarrierImg6', sig('', 'ImageData', 'Range', 'VkImageLayout', 'LayoutState', '')),
            ('imageBarrierImg5', sig('', 'ImageData', 'Range', 'LayoutState', '')),
            ('imageBarrierImg6v', sig('', 'ImageData', 'VkImageViewType', 'Range', 'LayoutState', ''))):
        cx.attempt(F, spec, pred=pred, stops=ST, subject='image barrier/' + spec)


RULES = [barriers]
