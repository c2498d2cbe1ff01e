from .common import *

PROP = prop('C14', 'The role of an attachment decides its layout, access, stage and descriptor',
  "The layout, the access mask, the pipeline stage and the descriptor type of an attachment follow from its role (sampled, implicit, storage, transfer, colour, depth, stencil, or both; uniform, storage, transfer or implicit buffer, viewed or not), "
  "from whether it is read or written, from whether the pass is a compute pass (a shader access of a compute pass is at the compute stage), and from whether depth and stencil layouts are separate; an implicit use has exactly the layout or access it asked for. "
  "Loading an attachment makes it an input and storing it makes it an output, for depth and for stencil alike, and every query about the role answers from those flags. "
  "An attachment holding one view or buffer serves it for every pass index, one holding several serves the one of that index.",
  ['inputs', 'configurations'], 'every combination of flags, operations and pass kinds',
  'A few thousand flag combinations exist; tests look at a few through the creation of whole passes.',
  [S + 'Attachment.cpp', I + 'Attachment.hpp'], [('mappings', S + 'Attachment.cpp'), ('role queries', I + 'Attachment.hpp')],
  [('flags', 'role of the attachment', I + 'Attachment.hpp')], ['barrier states', 'descriptor writes', 'render pass layouts'],
  how='Every mapping and query is shown equal to a reference model written as a table of roles, for all values of the flags at once; the constructors are compared on the state they leave.', min=40)

A = 'crg::Attachment::'
IA = 'crg::ImageAttachment::'
BA = 'crg::BufferAttachment::'
K = ('=crg::getAccessMask', '=crg::getStageMask', '=crg::Buffer::buffer', '=crg::Buffer::getCount')
MASK = ((lambda f: f['sq'] == 'crg::getAccessMask' and len(f['params']) == 1), '=crg::getStageMask')


def mappings(cx):
    for c, q, s in ((IA, 'getImageLayout', 'imageLayout'), (IA, 'getAccessMask', 'imageAccess'), (IA, 'getPipelineStageFlags', 'imageStage'), (IA, 'getDescriptorType', 'imageDescriptor'),
                    (BA, 'getAccessMask', 'bufferAccess'), (BA, 'getPipelineStageFlags', 'bufferStage'), (BA, 'getDescriptorType', 'bufferDescriptor'), (BA, 'getWrite', 'bufferWrite'),
                    (A, 'getImageLayout', 'attachLayout'), (A, 'getAccessMask', 'attachAccess'), (A, 'getPipelineStageFlags', 'attachStage'), (A, 'getDescriptorType', 'attachDescriptor'),
                    (A, 'getBufferWrite', 'attachWrite')):
        cx.attempt(c + q, s, stops=K)


def elements(cx):
    for c, q, s in ((IA, 'view', 'imageView'), (A, 'view', 'attachView'), (A, 'buffer', 'attachBuffer'), (A, 'getViewCount', 'viewCount'), (A, 'getBufferCount', 'bufferCount')):
        cx.attempt(c + q, s, stops=K[2:])


QUERIES = {'isNoTransition': 'pNoTransition', 'isInput': 'pInput', 'isOutput': 'pOutput', 'isInOut': 'pInOut', 'isImage': 'pImage', 'isBuffer': 'pBuffer', 'isClearable': 'pClearable',
           'isUniformBuffer': 'pUniformBuffer', 'isUniformBufferView': 'pUniformBufferView', 'isStorageBuffer': 'pStorageBuffer', 'isStorageBufferView': 'pStorageBufferView',
           'isTransferBuffer': 'pTransferBuffer', 'isTransitionBuffer': 'pTransitionBuffer', 'isTransitionBufferView': 'pTransitionBufferView', 'isBufferView': 'pBufferView',
           'isTransferInputBuffer': 'pTransferInputBuffer', 'isTransferOutputBuffer': 'pTransferOutputBuffer', 'isClearableBuffer': 'pClearableBuffer', 'isClearableImage': 'pClearableImage',
           'isSampledView': 'pSampled', 'isStorageView': 'pStorage', 'isTransferView': 'pTransfer', 'isTransitionView': 'pTransition', 'isDepthAttach': 'pDepth', 'isStencilAttach': 'pStencil',
           'isColourAttach': 'pColour', 'isColourInputAttach': 'pColourInput', 'isColourOutputAttach': 'pColourOutput', 'isColourInOutAttach': 'pColourInOut',
           'isDepthInputAttach': 'pDepthInput', 'isDepthOutputAttach': 'pDepthOutput', 'isDepthInOutAttach': 'pDepthInOut', 'isStencilClearingAttach': 'pStencilClearing',
           'isStencilInputAttach': 'pStencilInput', 'isStencilOutputAttach': 'pStencilOutput', 'isStencilInOutAttach': 'pStencilInOut', 'isDepthStencilInputAttach': 'pDepthStencilInput',
           'isDepthStencilOutputAttach': 'pDepthStencilOutput', 'isDepthStencilInOutAttach': 'pDepthStencilInOut', 'isTransferInputView': 'pTransferInput',
           'isTransferOutputView': 'pTransferOutput', 'isStorageInputView': 'pStorageInput', 'isStorageOutputView': 'pStorageOutput'}


def queries(cx):
    for q, s in QUERIES.items():
        cx.attempt(A + q, s)


def construction(cx):
    cx.attempt(A + 'Attachment', 'imageAttachCreate', n=14, ret=False, ignore_state=('bufferAttach',), subject='image attachment')
    cx.attempt(A + 'Attachment', 'bufferAttachCreate', n=9, ret=False, ignore_state=('imageAttach',), subject='buffer attachment')
    cx.attempt(A + 'Attachment', 'bufferViewAttachCreate', n=10, ret=False, ignore_state=('imageAttach',), subject='buffer view attachment')


RULES = [mappings, elements, queries, construction]
