from .common import *

PROP = prop('C15', 'Declaring a use of a resource attaches exactly that use to the pass',
  "Each declaration on a pass adds one attachment to it, carrying the given views or buffer, binding, range, clear value, blending, sampler, wanted layout or access, and the role its declaration names (input, output, both, clearable; sampled, implicit, storage, transfer, colour, depth, stencil, uniform), named after the pass, the resource and the role; "
  "colour and depth attachments are loaded when they are inputs, cleared when they are only outputs and stored when they are outputs, and so is the stencil of stencil attachments; depth and stencil attachments come before the images already declared, all others after. "
  "Merging views gives a view of their image covering exactly their levels and layers (or the first ones, when not merging those), of the array or cube type its layer count asks for, which remembers the merged views in order.",
  ['inputs', 'programs'], 'every declaration, view, buffer, range, binding and every list of merged views',
  'There are over sixty declarations; tests check few of the fields they set.',
  [S + 'FramePass.cpp', I + 'FramePass.hpp'], [('declarations', S + 'FramePass.cpp, ' + I + 'FramePass.hpp'), ('view merging', S + 'FramePass.cpp: mergeViews')],
  [('images, buffers', 'attachments of the pass', I + 'FramePass.hpp')], ['attachments seen by the graph'],
  how='Every declaration, for one view and for several, is shown equal to a reference model that builds the attachment from the role; merging is compared as a whole.', min=60)

F = 'crg::FramePass::'
K = ('=crg::fpass::adjustName', '=crg::isColourFormat', '=crg::isDepthStencilFormat', '=crg::isDepthFormat', '=crg::isStencilFormat')
BUFFERS = {'addImplicitBuffer': 'implicitBuffer', 'addUniformBuffer': 'uniformBuffer', 'addInputStorageBuffer': 'inputStorageBuffer', 'addOutputStorageBuffer': 'outputStorageBuffer',
           'addClearableOutputStorageBuffer': 'clearableStorageBuffer', 'addInOutStorageBuffer': 'inOutStorageBuffer', 'addImplicitBufferView': 'implicitBufferView',
           'addUniformBufferView': 'uniformBufferView', 'addInputStorageBufferView': 'inputStorageBufferView', 'addOutputStorageBufferView': 'outputStorageBufferView',
           'addClearableOutputStorageBufferView': 'clearableStorageBufferView', 'addInOutStorageBufferView': 'inOutStorageBufferView', 'addTransferInputBuffer': 'transferInputBuffer',
           'addTransferOutputBuffer': 'transferOutputBuffer', 'addTransferInOutBuffer': 'transferInOutBuffer'}
IMAGES = {'addSampledView': 'sampled', 'addImplicitColourView': 'implicitColour', 'addImplicitDepthView': 'implicitDepth', 'addImplicitDepthStencilView': 'implicitDepthStencil',
          'addInputStorageView': 'inputStorage', 'addOutputStorageView': 'outputStorage', 'addClearableOutputStorageView': 'clearableStorage', 'addInOutStorageView': 'inOutStorage',
          'addTransferInputView': 'transferInput', 'addTransferOutputView': 'transferOutput', 'addTransferInOutView': 'transferInOut',
          'addInputColourView': 'inputColour', 'addInOutColourView': 'inOutColour', 'addOutputColourView': 'outputColour', 'addInputDepthView': 'inputDepth', 'addInOutDepthView': 'inOutDepth',
          'addOutputDepthView': 'outputDepth', 'addInputDepthStencilView': 'inputDepthStencil', 'addInOutDepthStencilView': 'inOutDepthStencil', 'addOutputDepthStencilView': 'outputDepthStencil',
          'addInputStencilView': 'inputStencil', 'addInOutStencilView': 'inOutStencil', 'addOutputStencilView': 'outputStencil'}


def buffers(cx):
    for q, s in BUFFERS.items():
        cx.attempt(F + q, s, stops=K)


def images(cx):
    for q, s in IMAGES.items():
        cx.attempt(F + q, s, pred=lambda f: 'vector' in f['params'][0]['t'], stops=K, subject=q + ' (several views)')
        cx.attempt(F + q, s + 'One', pred=lambda f: 'vector' not in f['params'][0]['t'], stops=K, subject=q + ' (one view)')


def merging(cx):
    cx.attempt(F + 'mergeViews', 'mergeViews', stops=('crg::FrameGraph::createView',))


def pass_(cx):
    cx.attempt(F + 'FramePass', 'passInit', n=5, ret=False, ignore_state=('group', 'graph'))
    cx.attempt(F + 'addDependency', 'addPass')
    cx.attempt(F + 'addDependencies', 'addPasses')
    cx.attempt(F + 'createRunnable', 'createRunnable')
    cx.attempt(F + 'getFullName', 'passFullName', stops=('=crg::FramePassGroup::getFullName',))
    cx.attempt(F + 'getGroupName', 'passGroupName')


RULES = [buffers, images, merging, pass_]
