from .common import *

PROP = prop('C16', 'Passes and groups have unique names and ids, and none is lost',
  "A pass is created last in its group, with an id one more than the number of passes of the whole graph, unless a pass of that group already has its name, which is an error; a group is created only when its parent has none of that name, with an id one more than the number of groups of the whole graph, and the existing one is given otherwise. "
  "Listing a group gives its own passes in creation order, then those of its child groups in order, and nothing else; full names are the path of names from the graph. "
  "Images and views made through a pass group or a graph are made by its resource handler and remembered by the graph, and inputs, outputs and states asked of a group are those of the graph.",
  ['histories'], 'every sequence of creations of passes and groups at every depth',
  'Tests create flat graphs or one level of groups.',
  [S + 'FramePassGroup.cpp', S + 'FrameGraph.cpp'], [('creation and listing', S + 'FramePassGroup.cpp'), ('remembered resources', S + 'FrameGraph.cpp')],
  [('passes, groups', 'tree of the graph', I + 'FramePassGroup.hpp')], ['ids, names, listed passes'],
  how='Every function of the groups and the creating functions of the graph are shown equal to a reference model; the recursive counts are compared one level at a time, the recursion itself left uninterpreted on both sides.', min=20)

F = 'crg::FramePassGroup::'
G = 'crg::FrameGraph::'
N = 'crg::group::'
K = ('=' + N + 'countPasses', '=' + N + 'countGroups', '=' + N + 'getOutermost', '=' + F + 'hasPass', 'crg::FramePass::FramePass')


def creation(cx):
    cx.attempt(F + 'createPass', 'createPass', stops=K)
    cx.attempt(F + 'createPassGroup', 'createGroup', stops=K[:3] + (F + 'FramePassGroup',))
    cx.attempt(F + 'hasPass', 'hasPass')
    cx.attempt(F + 'FramePassGroup', 'groupInit', pred=sig('FramePassGroup', '', ''), ret=False, ignore_state=('m_graph',), subject='child group')
    cx.attempt(F + 'FramePassGroup', 'rootInit', pred=sig('FrameGraph', '', ''), ret=False, ignore_state=('m_graph',), subject='default group')


def counting(cx):
    def self_call(n):
        return lambda f: f['sq'] == N + n and N + n
    cx.attempt(N + 'getOutermost', 'outermost', alts=('outermostOf', 'outermostAgain'))
    cx.attempt(N + 'countPasses', 'countPasses')
    cx.attempt(N + 'countGroups', 'countGroups')


def listing(cx):
    cx.attempt(F + 'listPasses', 'listPasses')
    cx.attempt(F + 'getFullName', 'groupFullName')


def forwarding(cx):
    k = ('=' + G + 'getFinalLayoutState', G + 'createImage', G + 'createView', lambda f: f['sq'] in (G + 'addInput', G + 'addOutput') and len(f['params']) == 4)
    cx.attempt(F + 'getFinalLayoutState', 'groupFinal', stops=k)
    cx.attempt(F + 'createImage', 'groupImage', stops=k)
    cx.attempt(F + 'createView', 'groupView', stops=k)
    cx.attempt(F + 'addInput', 'groupAddInput', n=4, stops=k)
    cx.attempt(F + 'addOutput', 'groupAddOutput', n=4, stops=k)
    cx.attempt(F + 'addInput', 'groupAddInputView', n=2, stops=k)
    cx.attempt(F + 'addOutput', 'groupAddOutputView', n=2, stops=k)
    cx.attempt(F + 'addGroupInput', 'groupInput')
    cx.attempt(F + 'addGroupOutput', 'groupOutput')


def graph(cx):
    H = 'crg::ResourceHandler::'
    cx.attempt(G + 'createPass', 'graphPass', stops=(F + 'createPass',))
    cx.attempt(G + 'createPassGroup', 'graphGroup', stops=(F + 'createPassGroup',))
    cx.attempt(G + 'createImage', 'graphImage', stops=(H + 'createImageId',))
    cx.attempt(G + 'createView', 'graphView', stops=(H + 'createViewId',))


RULES = [creation, counting, listing, forwarding, graph]
