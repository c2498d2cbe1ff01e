from .common import *

PROP = prop('C26', 'Descriptions are equal when, and only when, all that identifies them is',
  "Two image descriptions are equal exactly when name and every creation parameter agree; two view descriptions exactly when image, flags, type, format, swizzle, range and per-pass source views agree; "
  "two samplers exactly when their filters, addressing modes and LOD settings agree; two buffers exactly when they hold the same handles in the same order. "
  "Two attachments are equal exactly when pass, flags and both parts agree: role flags, views, the four load and store operations, sampler, clear value and blend state for the image part, role flags, buffer, view and range for the buffer part; "
  "two transitions exactly when their views match (or their buffers are equal) and both their attachments are equal, and identifiers compare by their number alone.",
  ['inputs'], 'any two descriptions, attachments, transitions or identifiers',
  'A comparison that forgets one field is only wrong for the pair of values that differ there alone.',
  [I + 'Id.hpp', I + 'ImageData.hpp', I + 'ImageViewData.hpp', S + 'Attachment.cpp', S + 'AttachmentTransition.cpp'],
  [('comparison of images and views', I + 'ImageViewData.hpp'), ('comparison of attachments', S + 'Attachment.cpp'), ('comparison of transitions', S + 'AttachmentTransition.cpp')],
  [], ['identity of views', 'deduplication of transitions'],
  how='Each comparison is shown equal, as a boolean function of all the fields of both sides, to a conjunction written independently.', min=16)


def two(t):
    return sig(t, t)


def comparisons(cx):
    for t, s in (('VkImageSubresourceRange', 'eqRange'), ('VkImageViewCreateInfo', 'eqViewInfo'), ('const crg::ImageViewData', 'eqView'), ('VkExtent3D', 'eqExtent'),
                 ('VkImageCreateInfo', 'eqImageInfo'), ('const crg::ImageData', 'eqImage'), ('crg::SamplerDesc', 'eqSampler'), ('const crg::Buffer &', 'eqBuffer'),
                 ('crg::BufferAttachment', 'eqBufferAttach'), ('crg::ImageAttachment', 'eqImageAttach'), ('crg::Attachment', 'eqAttach'),
                 ('DataTransitionT<crg::Id<crg::ImageViewData>>', 'eqViewTransition'), ('DataTransitionT<crg::Buffer>', 'eqBufferTransition')):
        stops = ('=crg::match',) if 'Transition' in t else ()
        cx.attempt('crg::operator==', s, pred=two(t), stops=stops, subject=s[2:])


def identifiers(cx):
    for op, s in (('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('>', 'gt')):
        cx.attempt('crg::operator' + op, s + 'Id', pred=two('const crg::Id<crg::ImageViewData>'), subject='view identifiers')
        cx.attempt('crg::operator' + op, s + 'ImageId', pred=two('const crg::Id<crg::ImageData>'), subject='image identifiers')


def merging(cx):
    cx.attempt('crg::mergeIdenticalTransitions', 'merged', stops=('=crg::operator==',))


RULES = [comparisons, identifiers, merging]
