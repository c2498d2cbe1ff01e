from .common import *

PROP = prop('C22', 'Mip generation fills every level and leaves all in the next state',
  "For every layer of the view, each level after the first is filled by one linear blit from the level above it, the regions covering both levels entirely with dimensions halved per level and never below one. "
  "Before it is read a level is brought to transfer source and before it is written to transfer destination. "
  "Afterwards, when there is more than one level, each level of each of those layers is brought to the state the next user of the view expects.",
  ['inputs'], 'every image size, depth, level count, layer range and format',
  'The test generates mips of one image on a mock device that discards blit regions and barriers.',
  [S + 'RunnablePasses/GenerateMipmaps.cpp'], [('per layer, per level blit chain', S + 'RunnablePasses/GenerateMipmaps.cpp')],
  (), ['arguments of vkCmdBlitImage and of the image barriers'],
  how='The record function, with its two nested loops and loop-carried blit region, is shown equal to a reference model, as are the helpers it uses.', min=2)

PASS = (MB, '=crg::RunnableGraph::createImage', '=crg::RunnableGraph::getNextLayoutState', '=crg::RunnableGraph::getCurrentLayoutState')


def record(cx):
    cx.attempt('crg::GenerateMipmaps::doRecordInto', 'generateMips', stops=PASS)


RULES = [record]
