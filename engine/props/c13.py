from .runtime import *
from sa.terms import TRUE as TRUE_, S as Str
from sa.query import same

PROP = prop('C13', 'A context offers what its device provides',
  "A context keeps the device, pipeline cache, allocation callbacks, memory properties, device properties and depth/stencil layout choice it is given, and every device entry point it offers is what the loader returns for that device under exactly its own name; without a loader or a device it offers none. "
  "The memory type it selects is the first one allowed by the type bits that has all the required flags. "
  "When there is none, it logs an error and throws.",
  ['configurations', 'inputs'], 'every device, loader, and set of memory types, bits and flags',
  'The mock loader of the tests answers every name with its own function, and the tests use one memory layout.',
  [S + 'GraphContext.cpp', I + 'GraphContext.hpp'], [('loading', S + 'GraphContext.cpp: GraphContext::GraphContext'), ('memory type', S + 'GraphContext.cpp: deduceMemoryType')], (), ['entry points', 'memory allocation'],
  how='The constructor is evaluated and the final value of every entry point member of the class is compared with the answer of the loader to the name of that member; the rest is compared with reference models.', min=60)


def kept(cx):
    cx.attempt(GC + 'GraphContext', 'mkContext', n=7, ignore_state=('features', 'm_mutex', 'm_callstackCallback', 'm_allocated') + tuple(points(cx)), only_names=('throw',), subject='context')


def points(cx):
    r = cx.p.records.get('crg::GraphContext')
    return [f['n'] for f in r['fields'] if f['t'].startswith('PFN_vk') or f['n'].startswith('vk')] if r else []


def entry_points(cx):
    r = cx.run(GC + 'GraphContext', n=7)
    ns = points(cx)
    if not ns:
        cx.undec('entry points', 'none found')
    for n in ns:
        got = r.read(r.this, n)
        want = cx.run('spec::loaded', params={0: r.params[0], 1: r.params[6], 2: Str(n)}).value
        cx.verdict(same(TRUE_, got, want), n, 'is not what the loader answers to its own name', r.where)


def memory(cx):
    cx.attempt(GC + 'deduceMemoryType', 'memoryType', only_names=('throw', 'crg::Logger::logError'), argmask={'crg::Logger::logError': (0, 1)})


RULES = [kept, entry_points, memory]
