from .runtime import *

PROP = prop('C24', 'Pipelines, descriptors, dispatches and draws are those configured',
  "Each sampled, storage, uniform or texel attachment of the pass gets one descriptor of its own binding and type, visible to the stages of the kind of pipeline, and each pass index its own descriptor set, written once with the views, samplers and buffer ranges of that index before it is used; layouts and pool are made once, from these descriptors, the configured layouts and push constants. "
  "A pipeline is made from the program of its index (the only one when there is one), once unless reset or the render pass it is made for changes; a reset replaces the program when one is given, defers the destruction of the old pipeline, and records the pass again. "
  "A compute pass, a mesh and a quad each bind the pipeline and its set, let the user record, then dispatch or draw exactly what was configured, from the indirect buffer when there is one, then run the end callback; cleaning up destroys each object made exactly once.",
  ['histories', 'configurations'], 'every set of attachments, configuration, pass index and sequence of resets',
  'Tests draw with a mock device that discards descriptors, pipelines and arguments.',
  [S + 'RunnablePasses/PipelineHolder.cpp', S + 'RunnablePasses/ComputePass.cpp', S + 'RunnablePasses/RenderMeshHolder.cpp', S + 'RunnablePasses/RenderQuadHolder.cpp'],
  [('descriptors', S + 'RunnablePasses/PipelineHolder.cpp: createDescriptorSet'), ('draws', S + 'RunnablePasses/RenderMeshHolder.cpp: record')],
  [('pipelines', 'one per program', I + 'RunnablePasses/PipelineHolder.hpp')], ['vkUpdateDescriptorSets', 'vkCreate*Pipelines', 'vkCmdDispatch', 'vkCmdDraw'],
  how='Every function of the pipeline holder, the compute pass, and the mesh and quad holders is shown equal to a reference model.', min=20)

P = 'crg::PipelineHolder::'
C = 'crg::ComputePass::'
M = 'crg::RenderMeshHolder::'
Q = 'crg::RenderQuadHolder::'
H = 'crg::RenderPassHolder::'
K = (P + 'doFillDescriptorBindings', P + 'doCreateDescriptorSetLayout', P + 'doCreatePipelineLayout', P + 'doCreateDescriptorPool', P + 'createDescriptorSet', '=' + P + 'getPipeline', P + 'getProgram',
     P + 'createPipeline', P + 'initialise', P + 'cleanup', P + 'recordInto', P + 'resetPipeline')
RES = ('=' + G + 'createSampler', '=' + G + 'createImageView', '=crg::getBindingsSizes', '=' + G + 'createQuadTriVertexBuffer')


def without(*names):
    return tuple(k for k in K if not any(k.lstrip('=').endswith('::' + n) for n in names))


def holder(cx):
    cx.attempt(P + 'initialise', 'plInitialise', stops=without('initialise') + OBJ, subject='preparation')
    cx.attempt(P + 'getProgram', 'plProgram', stops=OBJ, subject='program of an index')
    cx.attempt(P + 'getPipeline', 'plPipeline', subject='pipeline of an index')
    cx.attempt(P + 'createPipeline', 'plGraphics', pred=sig('unsigned int', 'string', 'Graphics'), stops=('=' + P + 'getPipeline',) + OBJ, argmask={'crg::checkVkResult': (1,)}, subject='graphics pipeline')
    cx.attempt(P + 'createPipeline', 'plCompute', pred=sig('unsigned int', 'string', 'Compute'), stops=('=' + P + 'getPipeline',) + OBJ, argmask={'crg::checkVkResult': (1,)}, subject='compute pipeline')
    cx.attempt(P + 'recordInto', 'plRecord', stops=without('recordInto'), subject='binding')
    cx.attempt(P + 'resetPipeline', 'plReset', stops=('crg::DeletionQueue::push',), subject='reset')


def set_up(cx):
    cx.attempt(P + 'PipelineHolder', 'plCreate', ignore_state=('m_pass', 'm_context', 'm_graph'), subject='set up')


def descriptors(cx):
    cx.attempt(P + 'doFillDescriptorBindings', 'plBindings', stops=(), subject='bindings')
    cx.attempt(P + 'doCreateDescriptorSetLayout', 'plSetLayout', stops=OBJ, subject='layout of the set')
    cx.attempt(P + 'doCreatePipelineLayout', 'plLayout', stops=OBJ, subject='layout of the pipeline')
    cx.attempt(P + 'doCreateDescriptorPool', 'plPool', stops=OBJ + RES, subject='pool')
    cx.attempt('crg::getBindingsSizes', 'plSizes', subject='sizes of the pool')
    cx.attempt(P + 'createDescriptorSet', 'plDescriptorSet', stops=OBJ + RES, subject='descriptor set')
    cx.attempt(P + 'getDescriptorSet', 'plGetSet', stops=K, subject='descriptor set')
    cx.attempt('crg::WriteDescriptorSet::update', 'wdUpdate', subject='write')
    cx.attempt('crg::BufferAttachment::getWrite', 'baWrite', subject='write')
    cx.attempt('crg::BufferAttachment::getDescriptorType', 'baType', subject='type')
    cx.attempt('crg::ImageAttachment::getDescriptorType', 'iaType', subject='type')


def release(cx):
    cx.attempt(P + 'cleanup', 'plCleanup', stops=OBJ, subject='clean up')
    cx.attempt(P + '~PipelineHolder', 'plDestroy', stops=(P + 'cleanup',), subject='destruction')


def compute(cx):
    k = K + (C + 'doCreatePipeline', R + 'resetCommandBuffer', R + 'reRecordCurrent')
    cx.attempt(C + 'doInitialise', 'cpInitialise', stops=k, subject='initialisation')
    cx.attempt(C + 'doCreatePipeline', 'cpPipeline', stops=K, subject='pipeline')
    cx.attempt(C + 'resetPipeline', 'cpReset', stops=k, subject='reset')
    cx.attempt(C + 'doIsEnabled', 'cpEnabled', subject='enabled')
    cx.attempt(C + 'doGetPassIndex', 'cpIndex', subject='index')
    cx.attempt(C + 'doRecordInto', 'cpRecord', stops=K, subject='dispatch')


def draws(cx):
    for h, p, pre, what in ((M, 'crg::RenderMesh::', 'rm', 'mesh'), (Q, 'crg::RenderQuad::', 'rq', 'quad')):
        own = (h + 'doPreparePipelineStates', h + 'doCreatePipeline', h + 'resetRenderPass')
        k = K + RES
        cx.attempt(h + 'initialise', pre + 'Initialise', stops=k + own, subject=what)
        cx.attempt(h + 'doPreparePipelineStates', pre + 'Prepare', subject=what)
        cx.attempt(h + 'resetRenderPass', pre + 'Restart', stops=k + own[:2], subject=what)
        cx.attempt(h + 'resetPipeline', pre + 'Program', stops=k + own, subject=what)
        cx.attempt(h + 'doCreatePipeline', pre + 'Pipeline', stops=k, subject=what)
        cx.attempt(h + 'record', pre + 'Record', stops=k + own, ignore_ev=('throw',), subject=what)
        cx.attempt(h + 'end', pre + 'End', subject=what)
        cx.attempt(h + 'getPassIndex', pre + 'Index', subject=what)
        cx.attempt(h + 'isEnabled', pre + 'Enabled', subject=what)
        s = tuple(h + n for n in ('initialise', 'record', 'end', 'resetPipeline') + (('cleanup',) if pre == 'rm' else ())) + tuple(H + n for n in ('initialise', 'begin', 'end')) + (R + 'resetCommandBuffer', R + 'reRecordCurrent')
        cx.attempt(p + 'doRecordInto', pre + 'Pass', stops=s, subject=what)
        cx.attempt(p + 'resetPipeline', pre + 'Reset', stops=s, subject=what)


RULES = [set_up, holder, descriptors, release, compute, draws]
