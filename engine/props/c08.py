from .runtime import *

PROP = prop('C08', 'A fence is waited for before it is reset, and owned by exactly one object',
  "Resetting a fence first waits for it, without time limit, unless it has been waited for since the last reset; waiting marks it waited, resetting marks it not waited, and a wait answers what the device answered. "
  "A fence is created only if the device offers it, its creation result is checked, and it is destroyed exactly once, by the object that holds it last: moving takes the handle and the wait state over and leaves nothing behind. "
  "The fences of the graph and of every pass are created signalled, so the first wait returns.",
  ['histories', 'schedules'], 'every sequence of waits, resets, moves and destructions of a fence',
  'With the mock device of the tests a fence is never pending, so neither a missing nor a superfluous wait shows.',
  [S + 'RunnablePass.cpp', I + 'RunnablePass.hpp', S + 'RunnableGraph.cpp'], [('fence', S + 'RunnablePass.cpp: class Fence')],
  [('waited flag', 'the fence has been waited for since its last reset', I + 'RunnablePass.hpp: Fence::m_fenceWaited')], ['vkWaitForFences', 'vkResetFences', 'vkDestroyFence'],
  how='Every function of the fence is shown equal to a reference model (typestate: fresh, waited, reset); the creation flags at both creation sites are compared too.', min=6)


def typestate(cx):
    cx.attempt('crg::Fence::reset', 'fenceReset', stops=('crg::Fence::wait',), order=(('crg::Fence::wait', 'vkResetFences'),))
    cx.attempt('crg::Fence::wait', 'fenceWait')


def ownership(cx):
    cx.attempt('crg::Fence::Fence', 'fenceCreate', pred=sig('', '', ''), stops=OBJ, subject='Fence/create')
    cx.attempt('crg::Fence::Fence', 'fenceMove', pred=sig('Fence'), stops=OBJ, subject='Fence/move')
    cx.attempt('crg::Fence::~Fence', 'fenceDestroy', stops=OBJ)


def signalled(cx):
    k = dict(ret=False, state=False, only_names=('crg::Fence::Fence',), argmask={'crg::Fence::Fence': (1,)})
    cx.attempt(R + 'PassData::PassData', 'passDataCreate', n=3, stops=OBJ + DTORS + ('crg::Fence::Fence',), subject='pass fence', **k)
    cx.attempt(G + 'RunnableGraph', 'graphCreate', n=5, subject='graph fence',
               stops=OBJ + DTORS + (R + 'initialise', T + 'FramePassTimer', 'crg::Fence::Fence', 'crg::createQueryPool', 'crg::FramePass::createRunnable', 'crg::ContextResourcesCache::createImage', 'crg::ContextResourcesCache::createImageView'), **k)


RULES = [typestate, ownership, signalled]
