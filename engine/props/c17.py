from .common import *

PROP = prop('C17', 'Every shared resource gets the transitions its uses need',
  "For each output attachment and each input attachment on overlapping data whose pass depends on the output's one, compiling adds the transition from the output to the input on the view the input goes through, and the one on the view the output goes through if they do not match; views overlap exactly when they are on the same image and their mip ranges and layer ranges both intersect, buffers when their handle is the same. "
  "Attachments of merged views take part through each of their source views, and an attachment overlapping no output gets a transition from outside if it reads, towards outside if it writes. "
  "No transition is listed twice, and each is also recorded under its pass, which has an entry even without transition.",
  ['programs'], 'any passes with any attachments and dependencies',
  'Tests check a few dozen hand-made graphs; ranges that overlap partially, merged views or attachments used only once are where a derivation goes wrong.',
  [S + 'FramePassDependenciesBuilder.cpp', S + 'Attachment.cpp'],
  [('overlap of ranges', S + 'FramePassDependenciesBuilder.cpp: areIntersecting, areOverlapping'), ('derivation', S + 'FramePassDependenciesBuilder.cpp: buildPassAttachDependencies')],
  [], ['transitions given to the runnable graph'],
  how='Each function of the derivation is shown equal to a reference model, the functions it calls being compared in turn.', min=40)

D = 'crg::builder::deps::'
VA, BA = sig('', 'ImageViewData', 'ImageViewData'), sig('', 'crg::Buffer', 'crg::Buffer')


def overlap(cx):
    cx.attempt(D + 'isInRange', 'inRange')
    cx.attempt(D + 'areIntersecting', 'intersecting', n=4)
    cx.attempt(D + 'areIntersecting', 'rangesIntersecting', n=2)
    cx.attempt(D + 'areOverlapping', 'viewsOverlapping', pred=sig('Id<', 'Id<'), subject='overlapping views')
    cx.attempt(D + 'areOverlapping', 'buffersOverlapping', pred=sig('crg::Buffer', 'crg::Buffer'), subject='overlapping buffers')
    cx.attempt(D + 'isSingleMipView', 'singleMip')
    cx.attempt(D + 'getInputView', 'inputView')
    cx.attempt(D + 'getOutputView', 'outputView')


def splitting(cx):
    cx.attempt(D + 'AttachDataTraitsT::split', 'splitView', pred=lambda f: 'ImageView' in f.get('cls', ''))
    cx.attempt('crg::Attachment::Attachment', 'splitAttachment', pred=sig('ImageViewData', 'Attachment'), ret=False)


def gathering(cx):
    cx.attempt(D + 'insertAttach', 'insertView', pred=sig('', 'ImageViewData'), subject='view entry')
    cx.attempt(D + 'insertAttach', 'insertBuffer', pred=sig('', 'crg::Buffer'), subject='buffer entry')
    cx.attempt(D + 'insertPass', 'insertPass')
    k = (D + 'insertAttach', '=crg::builder::deps::areOverlapping', '=crg::operator==')
    cx.attempt(D + 'processInputAttachs', 'viewInputs', pred=VA, stops=k, subject='view inputs')
    cx.attempt(D + 'processOutputAttachs', 'viewOutputs', pred=VA, stops=k, subject='view outputs')
    cx.attempt(D + 'processInputAttachs', 'bufferInputs', pred=BA, stops=k, subject='buffer inputs')
    cx.attempt(D + 'processOutputAttachs', 'bufferOutputs', pred=BA, stops=k, subject='buffer outputs')


def adding(cx):
    k = ('=crg::FramePass::dependsOn', '=crg::operator==')
    cx.attempt(D + 'insertTransition', 'insertViewTransition', pred=sig('ImageViewData', '', ''), stops=k, subject='view transition')
    cx.attempt(D + 'insertTransition', 'insertBufferTransition', pred=sig('crg::Buffer', '', ''), stops=k, subject='buffer transition')
    # what is remembered about dependencies does not change what they are
    k = dict(stops=(D + 'insertTransition', D + 'insertPass', '=crg::match'), argmask={D + 'insertTransition': (1,)}, ignore_state=('arg2',))
    cx.attempt(D + 'addDependency', 'connectViews', pred=lambda f: 'ImageView' in f['u'], subject='views connected', **k)
    cx.attempt(D + 'addDependency', 'connectBuffers', pred=lambda f: 'Buffer' in f['u'], subject='buffers connected', **k)


def deriving(cx):
    def arr(t):
        return lambda f: len(f['params']) == 7 and f['params'][0]['t'].startswith('const std::vector') and t in f['params'][0]['t']
    k = ('=crg::FramePass::dependsOn', '=crg::builder::deps::areOverlapping', D + 'addDependency', D + 'addRemainingDependency')
    cx.attempt(D + 'buildPassDependencies', 'deriveViews', pred=arr('ImageViewData'), stops=k, subject='views')
    cx.attempt(D + 'buildPassDependencies', 'deriveBuffers', pred=arr('crg::Buffer'), stops=k, subject='buffers')
    k = (D + 'insertTransition', D + 'insertPass')
    cx.attempt(D + 'addRemainingDependency', 'remainingView', pred=sig('', '', '', 'ImageViewData'), stops=k, subject='remaining view')
    cx.attempt(D + 'addRemainingDependency', 'remainingBuffer', pred=sig('', '', '', 'crg::Buffer'), stops=k, subject='remaining buffer')
    ov = lambda f: f['sq'] == D + 'addRemainingDependency' and 'Transitions' not in f['params'][3]['t'] and f['sq']
    cx.attempt(D + 'addRemainingDependency', 'remaining', pred=sig('', '', '', 'AttachmentTransitions'), stops=(ov,), subject='remaining')
    k = (D + 'processInputAttachs', D + 'processOutputAttachs', D + 'insertPass', D + 'buildPassDependencies')
    cx.attempt('crg::builder::buildPassAttachDependencies', 'buildDependencies', stops=k)


RULES = [overlap, splitting, gathering, adding, deriving]
