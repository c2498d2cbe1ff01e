from .runtime import *
from sa.terms import fld

PROP = prop('C34', 'Ready-made passes are put together as configured',
  "Every ready-made pass announces the pipeline stage of its kind (transfer, compute or colour output), says whether it is a compute pass, answers the index and the enabled state it was configured with, and records its own commands with the arguments it receives; mesh and quad passes can always be recorded again. "
  "Everything it is given (offsets, sizes, filters, layouts, callbacks, buffers, group and instance counts, render size and number of passes) is kept for what it is named after; a quad is drawn as a triangle strip and a mesh as a triangle list, filled, without multisampling. "
  "What is not configured takes its default: first index, enabled, nothing to initialise or record, one group or instance, one vertex or primitive, 32 bit indices, no culling, inline contents, no buffer, no size.",
  ['configurations', 'inputs'], 'every combination of configured and missing options, for every ready-made pass',
  'Tests build each pass in one or two configurations; most options never reach an observable of the mock device.',
  [S + 'RunnablePasses/', I + 'RunnablePass.hpp', I + 'RunnablePasses/'], [('constructors', S + 'RunnablePasses/*.cpp'), ('defaults', I + 'RunnablePass.hpp: DefaultValueGetterT')], (), ['what the base of each pass is told'],
  how='Each constructor is shown equal to a reference model, including the arguments given to the base of the pass, and each closure given to the base is compared with its model; defaults are evaluated.', min=40)

P = 'crg::'
H = ('crg::RenderPassHolder::RenderPassHolder', 'crg::PipelineHolder::PipelineHolder', 'crg::RenderMeshHolder::RenderMeshHolder', 'crg::RenderQuadHolder::RenderQuadHolder')
BASE = R + 'RunnablePass'
K = (BASE,) + H
OWN = ('m_renderQuad', 'm_renderMesh', 'm_renderPass', 'm_pipeline', 'm_holder')


def closure(*names):
    def pick(r):
        e = r.ev(name=BASE)
        if len(e) != 1:
            return None
        v = e[0].ev.args[3]
        for n in names:
            v = fld(v, n)
        return v
    return pick


def made(cx, q, spec, closures, n=None, own=(), ignore=()):
    f = 'crg::%s::%s' % (q, q)
    rec = tuple('crg::%s::%s' % (q, m) for m in own)
    cx.attempt(f, spec, n=n, stops=K, ignore_state=ignore, subject=q)
    for c in closures:
        cx.attempt_lambda(f, spec, n=n, stops=K + rec, pick=closure(*c), state=False, subject='%s: %s' % (q, c[0]))


STAGE, RECORD, COMPUTE, INDEX, ENABLED, INIT = (('getPipelineState', 'm_callback'), ('record',), ('isComputePass', 'm_callback'), ('getPassIndex', 'm_callback'), ('isEnabled', 'm_callback'), ('initialise',))


def transfers(cx):
    for q, s, n in (('BufferCopy', 'mkBufferCopy', 8), ('BufferToImageCopy', 'mkBufferToImageCopy', 8), ('ImageToBufferCopy', 'mkImageToBufferCopy', 8), ('ImageBlit', 'mkImageBlit', 11),
                    ('ImageCopy', 'mkImageCopy', 8), ('ImageCopy', 'mkImageCopyPlain', 7), ('GenerateMipmaps', 'mkGenerateMipmaps', 7)):
        made(cx, q, s, (STAGE, RECORD, COMPUTE), n, ('doRecordInto',))


def draws(cx):
    made(cx, 'ComputePass', 'mkCompute', (STAGE, RECORD, COMPUTE, INDEX, ENABLED, INIT), 5, ('doRecordInto', 'doInitialise', 'doGetPassIndex', 'doIsEnabled'), OWN)
    made(cx, 'RenderPass', 'mkRenderPass', (STAGE, RECORD, COMPUTE), 6, ('doRecordInto',), OWN)
    made(cx, 'RenderMesh', 'mkRenderMesh', (STAGE, RECORD, COMPUTE, INDEX, ENABLED), 5, ('doRecordInto',), OWN)
    made(cx, 'RenderQuad', 'mkRenderQuad', (STAGE, RECORD, COMPUTE, INDEX, ENABLED), 5, ('doRecordInto',), OWN)
    for q, s in (('RenderPassHolder', 'mkPassHolder'), ('RenderMeshHolder', 'mkMeshHolder'), ('RenderQuadHolder', 'mkQuadHolder')):
        cx.attempt('crg::%s::%s' % (q, q), s, stops=tuple(k for k in K if k != 'crg::%s::%s' % (q, q)), ignore_state=OWN[3:] + ('m_pass', 'm_context', 'm_graph', 'inputState') + (('=this.m_config', '=this.m_config.vertexBuffer') if 'Mesh' in q else ()), subject=q)


def callbacks(cx):
    for q, s, ns in (('crg::RunnablePass::Callbacks::Callbacks', 'cb', (2, 3, 4, 5, 6)), ('crg::RenderPass::Callbacks::Callbacks', 'rcb', (2, 3, 4, 5))):
        for n in ns:
            cx.attempt(q, s + str(n), n=n, subject='%s callbacks from %d' % (q.split('::')[1], n))


def defaults(cx):
    for n in ('Initialise', 'Record', 'State', 'Index', 'Enabled', 'Compute', 'Groups', 'Primitives', 'Vertices', 'Indices', 'Culling', 'Contents', 'Extent', 'Offset', 'IndexPtr', 'EnabledPtr',
              'Indirect', 'Texcoord', 'Depth', 'Input', 'Programs', 'Layouts', 'Constants', 'VertexBuffer', 'IndexBuffer', 'Run'):
        cx.attempt('spec::use' + n, 'def' + n, subject='default ' + n)


RULES = [transfers, draws, callbacks, defaults]
