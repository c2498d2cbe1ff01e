"""Helpers to write the properties down."""
from sa.terms import Sym as SymT
S = 'source/RenderGraph/'
I = 'include/RenderGraph/'
TECH = 'value-flow refinement of the code against a reference model'
NOTE = ('Decided on the type-checked program, for every input of the analysed functions: an abstract evaluator turns each function (callees inlined) into '
        'guarded effects and values, and each is shown equal to a reference model or to satisfy the rule. Not a machine-checked proof: the evaluator and its library models are trusted, '
        'and anything it cannot follow is reported as undecided.')


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique=TECH, level='other', note=NOTE, how='', min=1, assumptions=()):
    return {
        'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': qtext}, 'why_tests_cant': why,
        'anchors': {'files': list(files), 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'observe_at': list(observe)},
        'technique': technique, 'level': level, 'level_note': note, 'how': how or note, 'min': min, 'assumptions': list(assumptions)}


def first_param(s):
    return lambda f: bool(f['params']) and s in f['params'][0]['t']


def param(i, s):
    return lambda f: len(f['params']) > i and s in f['params'][i]['t']


def sig(*subs):
    """Parameter types contain these fragments, in order; a leading '!' means must not contain."""
    def f(fn):
        if len(fn['params']) != len(subs):
            return False
        for p, s in zip(fn['params'], subs):
            for one in s.split('&&'):
                if one.startswith('!'):
                    if one[1:] in p['t']:
                        return False
                elif one not in p['t']:
                    return False
        return True
    return f


def MB(f):
    """Stops at the general image and buffer barrier entry points."""
    if f['sq'] == 'crg::RecordContext::memoryBarrier' and len(f['params']) == 7:
        return 'crg::imageBarrier' if 'ImageData' in f['params'][1]['t'] else 'crg::bufferBarrier'
    return False
