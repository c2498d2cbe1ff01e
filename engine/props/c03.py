from .common import *

PROP = prop('C03', 'Buffer barriers go from the tracked access to the requested access',
  "When a recording asks for a buffer range to be in a given access and stage, a buffer barrier covering exactly that range is recorded whenever the request is forced or access or stage differs from the state tracked for the buffer (the caller's initial state if nothing, or a bottom of pipe stage, is tracked); otherwise none is recorded. "
  "Its source side is that tracked or initial state, its destination side the requested one, and afterwards the requested state is the one tracked for the buffer. "
  "A buffer nothing was recorded for reads as no access at bottom of pipe.",
  ['inputs', 'histories'], 'every buffer, range, prior state, request and overload',
  'Tests never look at buffer barrier fields; only a few prior states occur in them.',
  [S + 'RecordContext.cpp'], [('buffer memory barrier emission', S + 'RecordContext.cpp')],
  [('tracked accesses', 'last access state of each buffer', I + 'RecordContext.hpp')], ['arguments of vkCmdPipelineBarrier'],
  how='Both buffer barrier entry points and the accessors of the tracked access are shown equal to reference models: calls, guards, arguments and resulting state.', min=5)

F = 'crg::RecordContext::memoryBarrier'


def barriers(cx):
    cx.attempt(F, 'bufferBarrier', pred=sig('', 'VkBuffer_T', '', '', '', 'PipelineState', ''), subject='buffer barrier/7')
    cx.attempt(F, 'bufferBarrier5', pred=sig('', 'VkBuffer_T', '', 'PipelineState', ''), subject='buffer barrier/5')


def state(cx):
    cx.attempt('crg::RecordContext::setAccessState', 'setAccessState')
    cx.attempt('crg::RecordContext::getAccessState', 'getAccessState')


RULES = [barriers, state]
