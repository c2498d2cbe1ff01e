from .runtime import *

PROP = prop('C05', 'Compiling orders every pass once, dependencies first',
  "Compiling a graph without any pass is an error; otherwise every pass of every group gets exactly one runnable, created in the order the passes were sorted in, and the graph is built from all of them and the transitions derived for them. "
  "Passes depending on nothing come first in listing order (the first listed one if there is none), then, round after round, every pass all of whose direct dependencies are placed, right before the first placed pass depending on it or else right after the last placed one it depends on. "
  "A round that places no pass is an error, never a loss of passes nor an endless loop, and a pass depends directly on another exactly when that one, by its identifier, is in its dependency list.",
  ['programs'], 'any groups of passes, with any dependencies, cyclic ones included',
  'Tests compile about a hundred small graphs, most of them chains listed in dependency order; sorting matters for those listed in another order, with several roots or with cycles.',
  [S + 'FrameGraph.cpp', S + 'RunnableGraph.cpp', S + 'FramePass.cpp', S + 'FramePassGroup.cpp'],
  [('sorting of the passes', S + 'FrameGraph.cpp: sortPasses'), ('compilation', S + 'FrameGraph.cpp: FrameGraph::compile'), ('creation of the runnables', S + 'RunnableGraph.cpp: constructor')],
  (), ['order of the runnables', 'exceptions thrown by compile'],
  how='Sorting, compiling and creating are compared, as state transformers over the lists involved, with reference models; loops are compared as systems of equations.', min=4)

K = ('crg::FramePassGroup::listPasses', 'crg::builder::buildPassAttachDependencies', 'crg::builder::buildGraph', 'crg::FramePassNode::FramePassNode',
     'crg::RootNode::RootNode', 'crg::RunnableGraph::RunnableGraph')


def sorting(cx):
    cx.attempt('crg::fgph::sortPasses', 'sortPasses')


def compiling(cx):
    cx.attempt('crg::FrameGraph::compile', 'compile', stops=K, twins=(('crg::fgph::sortPasses', 'sortPasses'),))


def listing(cx):
    cx.attempt('crg::FramePassGroup::listPasses', 'listPasses')


def direct(cx):
    cx.attempt('crg::FramePass::dependsOn', 'dependsPass', n=1)


def creation(cx):
    cx.attempt(G + 'RunnableGraph', 'graphCreate', n=5, subject='one runnable per pass', only_names=('crg::FramePass::createRunnable',), only_state=('m_passes',), ret=False, argmask={'crg::FramePass::createRunnable': (2,)},
               stops=OBJ + DTORS + (R + 'initialise', T + 'FramePassTimer', 'crg::Fence::Fence', 'crg::createQueryPool', 'crg::FramePass::createRunnable', 'crg::ContextResourcesCache::createImage', 'crg::ContextResourcesCache::createImageView'))


RULES = [sorting, compiling, listing, direct, creation]
