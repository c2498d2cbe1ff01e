from .common import *

PROP = prop('C33', 'Passes are linked exactly where one depends on the other',
  "A pass depends on another through a view or buffer exactly when one of its direct dependencies is that pass and writes it, or neither reads nor writes it and depends on that pass through it; a view is read or written when it matches a source view of an input or output attachment, a buffer when the pass has it as storage. "
  "Answers are remembered per pass, other pass and view or buffer, and a remembered answer never serves another question. "
  "The graph has one node per pass, an edge from the writer's node to the reader's for each transition between two passes where the reader depends on the writer through it, carrying each such transition once, and an edge from the root to each node nothing leads to.",
  ['programs'], 'any passes, dependencies and transitions',
  'Chains of passes with uninvolved passes in between, and repeated questions with colliding keys, are not in the test graphs.',
  [S + 'FramePass.cpp', S + 'GraphBuilder.cpp', S + 'GraphNode.cpp'],
  [('dependency through a resource', S + 'FramePass.cpp: dependsOn'), ('edges', S + 'GraphBuilder.cpp'), ('nodes', S + 'GraphNode.cpp')],
  [], ['edges and transitions of the graph'],
  how='Each function is shown equal to a reference model; the recursion of the dependency test is compared one level at a time.', min=25)

G, N, F, P = 'crg::builder::graph::', 'crg::GraphNode::', 'crg::FramePass::', 'crg::fpass::'


def depending(cx):
    v, b = sig('', 'ImageViewData'), sig('', 'crg::Buffer')
    k = ('=crg::match',)
    cx.attempt(P + 'isInOutputs', 'writesView', pred=v, stops=k, subject='view written')
    cx.attempt(P + 'isInInputs', 'readsView', pred=v, stops=k, subject='view read')
    cx.attempt(P + 'isInOutputs', 'hasStorage', pred=b, stops=('=crg::operator==',), subject='buffer written')
    cx.attempt(P + 'isInInputs', 'hasStorage', pred=b, stops=('=crg::operator==',), subject='buffer read')
    cx.attempt(F + 'dependsOn', 'dependsPass', n=1, subject='direct dependency')
    k = ('=' + P + 'isInOutputs', '=' + P + 'isInInputs')
    cx.attempt(F + 'dependsOn', 'dependsView', pred=sig('', 'ImageViewData', ''), stops=k, subject='dependency on a view')
    cx.attempt(F + 'dependsOn', 'dependsBuffer', pred=sig('', 'crg::Buffer', ''), stops=k, subject='dependency on a buffer')


def linking(cx):
    cx.attempt(G + 'findNode', 'nodeOf')
    k = ('=' + G + 'findNode', '=' + F + 'dependsOn', N + 'attachNode')
    cx.attempt(G + 'buildGraph', 'linkViews', pred=sig('ImageViewData', '', ''), stops=k, subject='edges of views')
    cx.attempt(G + 'buildGraph', 'linkBuffers', pred=sig('crg::Buffer', '', ''), stops=k, subject='edges of buffers')
    cx.attempt('crg::builder::buildGraph', 'linkGraph', stops=(G + 'buildGraph', N + 'attachNode'))


def nodes(cx):
    cx.attempt(N + 'attachNode', 'attachNode', stops=(N + 'addAttaches',))
    cx.attempt(N + 'addAttaches', 'addAttaches', stops=('crg::mergeIdenticalTransitions', '=crg::operator=='))
    cx.attempt(N + 'getInputAttaches', 'inputAttaches')
    cx.attempt('crg::getFramePass', 'passOf')
    cx.attempt('crg::FramePassNode::FramePassNode', 'passNode', ret=False, n=1, pred=sig('const crg::FramePass &'), stops=('=' + F + 'getGroupName',), ignore_state=('group',))
    cx.attempt('crg::RootNode::RootNode', 'rootNode', ret=False, pred=sig('FrameGraph'), ignore_state=('group',))

    cx.attempt('crg::RootNode::RootNode', 'rootMove', ret=False, n=1, pred=lambda f: f['params'][0]['t'].endswith('RootNode &&'), ignore_state=('arg0',), only_state=('kind', 'id', 'name', 'next', 'inputAttaches', 'graph'), subject='root moved')


RULES = [depending, linking, nodes]
