from .runtime import *

PROP = prop('C19', "A pass's attachments are ready before it records, cleared ones cleared",
  "Before an enabled pass records, each image it samples, stores to, transfers or transitions, unless marked without transition, is moved, after the implicit transition pending for it has run, from the tracked layout (from undefined if it is not an input) to the layout its role asks for, and each storage, transfer or transition buffer from its tracked access to the one its role asks for. "
  "An attachment marked clearable is first moved to transfer destination and cleared: a colour clear for colour formats, a depth-stencil clear otherwise, a zero fill of the 4-byte aligned range for buffers. "
  "The pass is initialised first if it was not, the actions before and after it run in order around its record callback, exactly once each, inside its own timestamps and debug label.",
  ['inputs', 'histories'], 'every attachment list, role, clear flag, buffer range, pass index and tracked state',
  'Tests cover a few role combinations and do not look at the recorded commands.',
  [S + 'RunnablePass.cpp'], [('pass recording', S + 'RunnablePass.cpp: RunnablePass::recordInto')], (), ['recorded commands', 'callbacks'],
  how='The recording function, callees inlined down to the barrier primitives, is shown equal to a reference model: every call with its guard, loop and arguments, and their order on the command buffer.', min=10)


def prologue(cx):
    record_into(cx)
    cx.attempt(R + 'initialise', 'initialisePass')


def layout_asked_after_transition(cx):
    """The tracked layout is read after the pending implicit transition of the view has run."""
    st = tuple(s for s in PASS if s != '=' + G + 'getCurrentLayoutState') + (G + 'getCurrentLayoutState',)
    r = cx.run(R + 'recordInto', stops=st)
    qs = r.ev('api', G + 'getCurrentLayoutState')
    tr = r.ev('api', 'crg::RecordContext::runImplicitTransition')
    if not qs or not tr:
        cx.undec('layout read', 'no layout query or no transition call')
        return
    for q in qs:
        bad = [t for t in tr if t.loops == q.loops and t.pos > q.pos]
        cx.require(not bad, 'layout read after the pending transition', 'the tracked layout is read before the pending transition of the view runs', q.where)


RULES = [prologue, layout_asked_after_transition]
