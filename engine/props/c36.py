from .runtime import *
from .c10 import H, CC, RC, K, ALL, OWN
from sa.terms import C, fld, contains, subst

PROP = prop('C36', 'Samplers and full-screen triangles are as described, shared and released',
  "A sampler has exactly the filters, address modes and level limits of its description, and a full-screen triangle covers the whole viewport, with texture coordinates running from 0 to 1 over it along each axis, or from 1 to 0 when that axis is inverted, and an input state describing what it holds. "
  "In one context equal descriptions share one object, and every setting of the description takes part in telling descriptions apart. "
  "Each is destroyed exactly once, with its memory, when the cache that created it ends, and a triangle that cannot be filled leaves nothing behind.",
  ['inputs', 'histories', 'fault_sequences'], 'every sampler description, texture configuration and history of requests',
  'The tests never look at the content of the triangle or the settings of the sampler, the mock device maps no memory, and they use one or two descriptions.',
  [S + 'ResourceHandler.cpp', I + 'ResourceHandler.hpp'], [('samplers', S + 'ResourceHandler.cpp: createSampler'), ('triangles', S + 'ResourceHandler.cpp: createQuadTriVertexBuffer')], (('m_samplers, m_vertexBuffers', 'objects shared under the key of their description', I + 'ResourceHandler.hpp: ContextResourcesCache'),), ['vkCreateSampler', 'mapped vertices', 'vertex input state'],
  how='Creation, sharing and destruction are shown equal to reference models on every path; the key under which an object is shared is evaluated symbolically and checked to depend on every setting and to tell exchanged settings apart.', min=30)


def samplers(cx):
    cx.attempt(H + 'createSampler', 'makeSampler', stops=K, subject='samplers')
    cx.attempt(H + 'destroySampler', 'unmakeSampler', stops=K, subject='destruction of samplers')
    cx.attempt(CC + 'createSampler', 'cacheSampler', stops=ALL + ('=crg::reshdl::makeHash',), subject='samplers of a cache')
    cx.attempt(RC + 'createSampler', 'samplerIn', stops=OWN + (RC + 'getContextCache',), subject='sampler in a context')


def triangles(cx):
    cx.attempt(H + 'createQuadTriVertexBuffer', 'makeTriangle', stops=K, argmask={'vkMapMemory': (5,)}, ret='content', subject='triangles')
    cx.attempt(H + 'destroyVertexBuffer', 'unmakeTriangle', stops=K, subject='destruction of triangles')
    cx.attempt(CC + 'createQuadTriVertexBuffer', 'cacheTriangle', stops=ALL + ('=crg::reshdl::makeHash',), subject='triangles of a cache')
    cx.attempt(RC + 'createQuadTriVertexBuffer', 'triangleIn', stops=OWN + (RC + 'getContextCache',), subject='triangle in a context')
    cx.attempt(CC + '~ContextResourcesCache', 'endCache', stops=ALL, subject='end of a cache')




def keyed(cx, q, stops):
    """The key a new object of the cache is kept under."""
    r = cx.run(q, stops=stops)
    o = next((o for o in r.occs if o.ev.kind == 'cont' and o.ev.name in ('put', 'insert', 'assign') and len(o.ev.args) > 2), None)
    return r, (o.ev.args[1] if o else None), (o.where if o else r.where)


def sampler_keys(cx):
    q = CC + 'createSampler'
    r, key, where = keyed(cx, q, ALL)
    fields = cx.p.records.get('crg::SamplerDesc', {}).get('fields') or []
    if key is None or not fields or not r.params:
        return cx.undec('keys of samplers', 'no key found', where)
    d = r.params[0]
    at = {f['n']: fld(d, f['n']) for f in fields}
    if contains(key, lambda t: t.k in ('unk', 'res')) or not any(contains(key, lambda t, x=x: t is x) for x in at.values()):
        return cx.undec('keys of samplers', 'the key is not understood', where)
    for n, x in at.items():
        cx.require(contains(key, lambda t: t is x), 'keys of samplers: ' + n, 'samplers that only differ by it share one key', where)
    for i, a in enumerate(fields):
        for b in fields[i + 1:]:
            x, y = at[a['n']], at[b['n']]
            cx.require(subst(key, {x: y, y: x}) is not key, 'keys of samplers: %s and %s' % (a['n'], b['n']), 'exchanging them gives the same key', where)


def triangle_keys(cx):
    q = CC + 'createQuadTriVertexBuffer'
    r, key, where = keyed(cx, q, ALL)
    fields = cx.p.records.get('crg::Texcoord', {}).get('fields') or []
    if key is None or len(r.params) < 2 or not fields:
        return cx.undec('keys of triangles', 'no key found', where)
    vs = [r.params[0]] + [fld(r.params[1], f['n']) for f in fields]
    names = ['texture coordinates'] + [f['n'] for f in fields]
    got = {}
    for bits in range(1 << len(vs)):
        k = subst(key, {v: C(bits >> i & 1) for i, v in enumerate(vs)})
        if k.k != 'c':
            return cx.undec('keys of triangles', 'the key is not understood', where)
        what = ', '.join('%s %s' % (n, 'on' if bits >> i & 1 else 'off') for i, n in enumerate(names))
        cx.require(k not in got, 'keys of triangles: ' + what, 'shares its key with ' + got.get(k, ''), where)
        got.setdefault(k, what)


RULES = [samplers, triangles, sampler_keys, triangle_keys]
