from .common import *

PROP = prop('C32', 'What layouts, stages, formats and views mean',
  "Each image layout stands for one access mask and one pipeline stage, and each set of pipeline stages for the accesses made there (reads and writes of colour, of depth and stencil and of transfers; reads of shaders, of presentation and of shading rate images). "
  "Depth formats, stencil formats, both, and colour formats are told apart exactly, and the aspects of a format follow; the extent, format, type, levels and layers of an image or view are those of its description, the extent at a mip level being halved per level and never zero. "
  "Two views match exactly when image, flags and format are equal, aspects intersect and levels and layers are equal, the depth slices of a 3D view standing for layers against another type of view; a merged view serves each pass index through its own source view.",
  ['inputs'], 'every layout, stage mask, format, image and view',
  'The tables have hundreds of entries and views have unbounded ranges; a wrong entry only shows as a missing barrier or a bad aspect on some GPU.',
  [S + 'FrameGraph.cpp', I + 'ImageData.hpp', I + 'ImageViewData.hpp'], [('tables', S + 'FrameGraph.cpp'), ('descriptions', I + 'ImageData.hpp')], [],
  ['barriers', 'views passed to Vulkan'],
  how='Each table, predicate and query is shown equal, as a function of its whole domain, to an independent one; constructors are compared on the state they leave.', min=22)

IMG = sig('Id<crg::ImageData>')
VIEW = sig('Id<crg::ImageViewData>')


def tables(cx):
    cx.attempt('crg::getAccessMask', 'layoutAccess', pred=sig('VkImageLayout'))
    cx.attempt('crg::getStageMask', 'layoutStage')
    cx.attempt('crg::makeLayoutState', 'layoutState')
    cx.attempt('crg::getPipelineState', 'stageState')


def formats(cx):
    for q, s in (('isDepthFormat', 'depthFormat'), ('isStencilFormat', 'stencilFormat'), ('isDepthStencilFormat', 'depthStencilFormat'), ('isColourFormat', 'colourFormat'), ('getAspectMask', 'aspects')):
        cx.attempt('crg::' + q, s)


def queries(cx):
    cx.attempt('crg::getExtent', 'imageExtent', pred=IMG, subject='extent of an image')
    cx.attempt('crg::getExtent', 'viewExtent', pred=VIEW, subject='extent of a view')
    cx.attempt('crg::getMipExtent', 'mipExtent')
    cx.attempt('crg::getFormat', 'imageFormat', pred=IMG, subject='format of an image')
    cx.attempt('crg::getFormat', 'viewFormat', pred=VIEW, subject='format of a view')
    cx.attempt('crg::getImageType', 'imageType', pred=IMG, subject='type of an image')
    cx.attempt('crg::getImageType', 'viewImageType', pred=VIEW, subject='image type of a view')
    cx.attempt('crg::getMipLevels', 'imageLevels', pred=IMG, subject='levels of an image')
    cx.attempt('crg::getMipLevels', 'viewLevels', pred=VIEW, subject='levels of a view')
    cx.attempt('crg::getArrayLayers', 'imageLayers', pred=IMG, subject='layers of an image')
    cx.attempt('crg::getArrayLayers', 'viewLayers', pred=VIEW, subject='layers of a view')
    cx.attempt('crg::getVirtualRange', 'virtualRange')
    cx.attempt('crg::match', 'viewsMatch', pred=sig('ImageViewData', 'ImageViewData'))
    cx.attempt('crg::resolveView', 'resolved')


def descriptions(cx):
    cx.attempt('crg::ImageData::ImageData', 'imageDataCreate', n=10, ret=False, subject='image description')
    cx.attempt('crg::ImageViewData::ImageViewData', 'viewDataCreate', n=6, ret=False, subject='view description')


RULES = [tables, formats, queries, descriptions]
