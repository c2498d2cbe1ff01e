from .common import *

RP = I + 'RunnablePasses/'
PROP = prop('C25', 'A pass option holds exactly what was last set, and setting one changes no other',
  "Every setter of a pass configuration or pass builder stores the given value in the option it names, replacing any earlier value, and changes no other option, whatever was set before and in whichever order; a single program, layout or push constant range is stored as a list of one. "
  "Actions to run before or after a pass are kept in the order they were added, and of several implicit actions for one view the first is kept. "
  "A builder hands every option set on it to the pass it builds.",
  ['inputs', 'histories'], 'every setter of every configuration and builder, every value and every sequence of calls',
  'The tests set a few options, each once, on some configurations; several setters are templates that no test instantiates.',
  [RP + 'PipelineConfig.hpp', RP + 'ComputePass.hpp', RP + 'RenderQuadConfig.hpp', RP + 'RenderMeshConfig.hpp', RP + 'PipelineHolder.hpp', RP + 'RenderQuad.hpp', I + 'RunnablePass.hpp'],
  [('pipeline options', RP + 'PipelineConfig.hpp: ConfigT'), ('compute options', RP + 'ComputePass.hpp: ConfigT'), ('full-screen options', RP + 'RenderQuadConfig.hpp: ConfigT'), ('mesh options', RP + 'RenderMeshConfig.hpp: ConfigT'), ('builder', RP + 'RenderQuad.hpp: RenderQuadBuilderT::build')],
  (('m_baseConfig', 'options every pipeline shares', RP + 'PipelineHolder.hpp: PipelinePassBuilderT'),), ['members of the configuration after a setter', 'configuration handed to the pass'],
  how='Every setter, instantiated for all configurations, is shown equal to a one-line reference model: the option named, and nothing else, takes the value given.', min=70)

def index_closure(r):
    """The closure kept in the option that gives the index."""
    own = r.this if r.fn.get('cls') and not r.fn.get('static') else r.params[0]
    seen = []

    def walk(t):
        if t.k == 'lam':
            seen.append(t)
        for a in t.a:
            if hasattr(a, 'k'):
                walk(a)
            elif isinstance(a, tuple):
                for x in a:
                    for y in (x if isinstance(x, tuple) else (x,)):
                        if hasattr(y, 'k'):
                            walk(y)
    walk(r.read(own, 'm_getPassIndex'))
    return seen[0] if len(seen) == 1 else None


PIPE = (('program', 'Program'), ('programs', 'Programs'), ('programCreator', 'Creator'), ('layout', 'Layout'), ('layouts', 'Layouts'))


def each(cx, cls, tag, names):
    for q, s in names:
        cx.attempt('crg::%s::%s' % (cls, q), 'cfg' + tag + s, n=1, subject='%s %s' % (cls.replace('::ConfigT', ''), q))


def pushes(cx, cls, tag):
    cx.attempt('crg::%s::pushConstants' % cls, 'cfg%sPush' % tag, pred=sig('!std::vector'), subject='%s one push constant range' % cls)
    cx.attempt('crg::%s::pushConstants' % cls, 'cfg%sPushes' % tag, pred=sig('std::vector'), subject='%s push constant ranges' % cls)


def pipelines(cx):
    each(cx, 'pp::ConfigT', 'P', PIPE)
    pushes(cx, 'pp::ConfigT', 'P')


def computes(cx):
    each(cx, 'cp::ConfigT', 'C', PIPE + (('baseConfig', 'Base'), ('enabled', 'Enabled'), ('getPassIndex', 'GetIndex'), ('isEnabled', 'IsEnabled'),
      ('recordInto', 'Record'), ('initialise', 'Initialise'), ('end', 'End'), ('groupCountX', 'X'), ('groupCountY', 'Y'), ('groupCountZ', 'Z'),
      ('getGroupCountX', 'GetX'), ('getGroupCountY', 'GetY'), ('getGroupCountZ', 'GetZ'), ('indirectBuffer', 'Indirect'), ('passIndex', 'Index')))
    pushes(cx, 'cp::ConfigT', 'C')
    cx.attempt_lambda('crg::cp::ConfigT::passIndex', 'cfgCIndex', pick=index_closure, subject='cp passIndex, when asked')
    late(cx, 'crg::cp::ConfigT::passIndex')


def late(cx, q):
    """What a pointer leads to is read inside closures only: when the pass asks, not when the option is set."""
    f = cx.p.find(q, 1)
    if len(f) != 1:
        return cx.undec(q.replace('crg::', '') + ', time of reading', 'no definition', '')
    early = []

    def walk(e):
        if isinstance(e, list):
            for x in e:
                walk(x)
        elif isinstance(e, dict):
            if e.get('k') == 'lambda':
                return walk(e.get('caps'))
            if e.get('k') in ('un', 'idx') and e.get('op', '*') == '*' and (e.get('e') or {}).get('k') == 'ref' and (e['e'].get('t') or '').startswith('const unsigned int *'):
                early.append(e.get('l'))
            for x in e.values():
                walk(x)
    walk(f[0]['body'])
    cx.require(not early, 'cp passIndex, time of reading', 'the index is read when the option is set, not when the pass asks for it', cx.run(q).where)


def quads(cx):
    each(cx, 'rq::ConfigT', 'Q', PIPE + (('baseConfig', 'Base'), ('texcoordConfig', 'Texcoord'), ('renderSize', 'Size'), ('renderPosition', 'Position'),
      ('depthStencilState', 'Depth'), ('passIndex', 'Index'), ('enabled', 'Enabled'), ('isEnabled', 'IsEnabled'), ('recordInto', 'Record'), ('end', 'End'),
      ('instances', 'Instances'), ('indirectBuffer', 'Indirect')))


def meshes(cx):
    each(cx, 'rm::ConfigT', 'M', PIPE + (('baseConfig', 'Base'), ('renderSize', 'Size'), ('renderPosition', 'Position'), ('depthStencilState', 'Depth'),
      ('getPassIndex', 'GetIndex'), ('isEnabled', 'IsEnabled'), ('recordInto', 'Record'), ('end', 'End'), ('vertexBuffer', 'Vertex'), ('indexBuffer', 'Indexes'),
      ('indirectBuffer', 'Indirect'), ('getPrimitiveCount', 'Primitives'), ('getVertexCount', 'Vertices'), ('getIndexType', 'IndexType'), ('getCullMode', 'Cull')))


def actions(cx):
    cx.attempt('crg::ru::Config::implicitAction', 'cfgRImplicit', n=2, subject='implicit action')
    cx.attempt('crg::ru::Config::prePassAction', 'cfgRBefore', n=1, subject='action before the pass')
    cx.attempt('crg::ru::Config::postPassAction', 'cfgRAfter', n=1, subject='action after the pass')


def builders(cx):
    each(cx, 'PipelinePassBuilderT', 'B', (('program', 'Program'), ('programs', 'Programs'), ('programCreator', 'Creator'), ('pushConstants', 'Push')))
    each(cx, 'RenderQuadBuilderT', 'B', (('texcoordConfig', 'Texcoord'), ('renderSize', 'Size'), ('renderPosition', 'Position'), ('depthStencilState', 'Depth'),
      ('passIndex', 'Index'), ('enabled', 'Enabled'), ('isEnabled', 'IsEnabled'), ('recordInto', 'Record'), ('instances', 'Instances')))
    cx.attempt('crg::RenderQuadBuilderT::build', 'cfgBBuild', state=False, stops=('crg::RenderQuad::RenderQuad',), subject='build')


RULES = [pipelines, computes, quads, meshes, actions, builders]
