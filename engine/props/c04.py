from .common import *

PROP = prop('C04', 'Each image layout maps to the access and stage masks of its use',
  "For every image layout, the access mask and pipeline stage derived from it are those of its use: transfer source/destination to transfer read/write at the transfer stage, shader read-only to shader read at the fragment shader, colour and depth/stencil attachment and read-only layouts to the matching attachment access at colour output or late fragment tests, presentation to memory read at bottom of pipe, general to bottom of pipe, undefined to no access at the host stage, and any other layout to nothing. "
  "A state built from a layout carries that layout together with that layout's access and stage, and a pipeline state built from stages carries those stages with the accesses those stages imply. "
  "A format is classified as depth, stencil, both or colour consistently, and its aspect mask follows that classification.",
  ['inputs'], 'every Vulkan image layout, stage mask and format',
  'Tests only cross a handful of layouts and formats and do not check the derived masks.',
  [S + 'FrameGraph.cpp'], [('layout to access and stage tables', S + 'FrameGraph.cpp'), ('format classification', S + 'FrameGraph.cpp')], (),
  ['getAccessMask', 'getStageMask', 'getPipelineState', 'makeLayoutState', 'getAspectMask'],
  how='The tables are compared, over every value of their argument, with tables restated in the reference model.', min=9)


def tables(cx):
    for q, sp in (('getAccessMask', 'accessOf'), ('getStageMask', 'stageOf'), ('makeLayoutState', 'layoutState'), ('getPipelineState', 'pipelineState'),
                  ('isDepthFormat', 'depthFormat'), ('isStencilFormat', 'stencilFormat'), ('isColourFormat', 'colourFormat'),
                  ('isDepthStencilFormat', 'depthStencilFormat'), ('getAspectMask', 'aspectOf')):
        cx.attempt('crg::' + q, sp, n=1)


RULES = [tables]
