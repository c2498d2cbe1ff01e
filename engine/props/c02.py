from .common import *

PROP = prop('C02', 'The tracked state of an image range is the last state requested for it',
  "Setting a state for an image range records it for exactly the layers and mip levels the range designates, and reading a range back combines exactly those it designates, with the same layer numbering as the write (the slices of a 3D image at the range's first level count as layers). "
  "An image or subresource nothing was recorded for reads as undefined; where levels differ, the lowest layout is returned with the accesses recorded under it combined. "
  "The state of a view is that of its image over the view's range, and the next-pass states are read from the states declared for the next pass.",
  ['histories', 'inputs'], 'every sequence of state changes and queries over every image kind, layer and level range',
  'Tests use single-layer, single-level 2D images almost everywhere, and read back only a few ranges.',
  [S + 'LayerLayoutStatesHandler.cpp', S + 'FrameGraph.cpp', S + 'RecordContext.cpp'],
  [('per layer/level state map', S + 'FrameGraph.cpp'), ('virtual range of 3D views', S + 'FrameGraph.cpp'), ('state by image', S + 'LayerLayoutStatesHandler.cpp')],
  [('layer/level map', 'state by image, layer and level', I + 'FrameGraphPrerequisites.hpp')], ['RecordContext::getLayoutState', 'RecordContext::setLayoutState'],
  how='The functions that write, read and merge per-subresource states, with their loops, and every accessor forwarding to them, are shown equal to reference models.', min=12)

ST = ('crg::addSubresourceRangeLayout', '=crg::getSubresourceRangeLayout', '=crg::getVirtualRange')
H = 'crg::LayerLayoutStatesHandler::'
R = 'crg::RecordContext::'


def ranges(cx):
    cx.attempt('crg::getVirtualRange', 'virtualRange')
    cx.attempt('crg::addSubresourceRangeLayout', 'addRange', ret=False)
    cx.attempt('crg::getSubresourceRangeLayout', 'readRange')


def accessors(cx):
    cx.attempt(H + 'setLayoutState', 'setImageState', n=4, stops=ST)
    cx.attempt(H + 'getLayoutState', 'getImageState', n=3, stops=ST)
    cx.attempt(H + 'setLayoutState', 'setViewState', n=2, stops=ST)
    cx.attempt(H + 'getLayoutState', 'getViewState', n=1, stops=ST)
    cx.attempt(R + 'setLayoutState', 'rcSetView', n=2, stops=ST)
    cx.attempt(R + 'getLayoutState', 'rcGetView', n=1, stops=ST)
    cx.attempt(R + 'getNextLayoutState', 'rcNextView', n=1, stops=ST)
    cx.attempt(R + 'setLayoutState', 'rcSetImage', n=4, stops=ST)
    cx.attempt(R + 'getLayoutState', 'rcGetImage', n=3, stops=ST)
    cx.attempt(R + 'getNextLayoutState', 'rcNextImage', n=3, stops=ST)


RULES = [ranges, accessors]
