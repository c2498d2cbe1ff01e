from .runtime import *

PROP = prop('C10', 'Images and views are created once, as described, and destroyed by their creator',
  "An image or view identifier stands for at most one device object, created from its description when first asked for (an image with device-local memory of its own bound to it, a view on the image it describes) and handed out again afterwards; every description of an image gets an identifier of its own, equal descriptions of a view share one. "
  "A cache destroys, on request or when it ends, exactly the images and views whose creation it caused, views before images, each once and with its memory, and forgets them. "
  "A creation that fails leaves nothing behind, and whatever is still alive when the handler ends is reported.",
  ['histories', 'inputs', 'fault_sequences'], 'every history of creations, destructions and failures over any number of identifiers, caches and contexts',
  'The tests create each resource once in one cache; double creations, shared ownership, failures and leaks are invisible to a mock device.',
  [S + 'ResourceHandler.cpp', I + 'ResourceHandler.hpp'], [('handler', S + 'ResourceHandler.cpp: ResourceHandler'), ('caches', S + 'ResourceHandler.cpp: ContextResourcesCache, ResourcesCache')], (('m_images, m_imageViews', 'objects alive for each identifier', I + 'ResourceHandler.hpp: ResourceHandler'), ('m_images, m_imageViews', 'objects created through a cache', I + 'ResourceHandler.hpp: ContextResourcesCache')), ['vkCreateImage', 'vkDestroyImage', 'vkFreeMemory', 'vkCreateImageView', 'vkDestroyImageView'],
  how='Every operation of the handler and of the two caches is evaluated symbolically (Vulkan calls, container changes, locks, handlers of exceptions, results) and shown equal to a reference model of it, on every path.', min=60)

H, CC, RC = 'crg::ResourceHandler::', 'crg::ContextResourcesCache::', 'crg::ResourcesCache::'
K = OBJ + (GC + 'doRegisterObjectName', 'crg::checkVkResult', GC + 'deduceMemoryType')


def identifiers(cx):
    cx.attempt(H + 'createImageId', 'newImageId', stops=K, subject='image identifiers')
    cx.attempt(H + 'createViewId', 'newViewId', stops=K, subject='view identifiers')


def objects(cx):
    cx.attempt('crg::reshdl::createImageMemory', 'imageMemory', stops=K, subject='memory of an image')
    cx.attempt(H + 'createImage', 'makeImage', stops=K, subject='images')
    cx.attempt(H + 'createImageView', 'makeView', stops=K + (H + 'createImage',), subject='views')
    cx.attempt(H + 'destroyImage', 'unmakeImage', stops=K, subject='destruction of images')
    cx.attempt(H + 'destroyImageView', 'unmakeView', stops=K, subject='destruction of views')


ALL = tuple(H + x for x in ('createImage', 'createImageView', 'createSampler', 'createQuadTriVertexBuffer', 'destroyImage', 'destroyImageView', 'destroySampler', 'destroyVertexBuffer'))


def cache(cx):
    cx.attempt(CC + 'createImage', 'cacheImage', stops=ALL, subject='images of a cache')
    cx.attempt(CC + 'createImageView', 'cacheView', stops=ALL + (CC + 'createImage',), subject='views of a cache')
    cx.attempt(CC + 'destroyImage', 'uncacheImage', stops=ALL, subject='images destroyed by a cache')
    cx.attempt(CC + 'destroyImageView', 'uncacheView', stops=ALL, subject='views destroyed by a cache')
    cx.attempt(CC + '~ContextResourcesCache', 'endCache', stops=ALL, order=((H + 'destroyImageView', H + 'destroyImage'),), subject='end of a cache')


OWN = tuple(CC + x for x in ('createImage', 'createImageView', 'createSampler', 'createQuadTriVertexBuffer', 'destroyImage', 'destroyImageView'))


def caches(cx):
    two, one = (lambda n: dict(n=n, stops=OWN + (RC + 'getContextCache',)))(2), dict(n=1, stops=OWN)
    cx.attempt(RC + 'getContextCache', 'cacheOf', subject='cache of a context')
    cx.attempt(RC + 'createImage', 'imageIn', subject='image in a context', **two)
    cx.attempt(RC + 'createImageView', 'viewIn', subject='view in a context', **two)
    cx.attempt(RC + 'destroyImage', 'imageOutOf', subject='image destroyed in a context', **two)
    cx.attempt(RC + 'destroyImageView', 'viewOutOf', subject='view destroyed in a context', **two)
    cx.attempt(RC + 'destroyImage', 'imageOut', subject='image destroyed wherever it is', **one)
    cx.attempt(RC + 'destroyImageView', 'viewOut', subject='view destroyed wherever it is', **one)


def leaks(cx):
    cx.attempt(H + '~ResourceHandler', 'reportResources', subject='report of leaks', log=True, ignore_ev=('snprintf',), argmask={'m_error': (0,)})


RULES = [identifiers, objects, cache, caches, leaks]
