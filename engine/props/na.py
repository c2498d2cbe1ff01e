"""Properties static analysis cannot decide here, with the reason."""
from .common import *

NA = [
    (prop('C90', 'The images a graph produces are those its passes describe',
          'After a graph has run, every output image and buffer holds what executing its passes one after the other on their declared inputs would give.',
          ['programs', 'histories'], 'every graph, device and content of the inputs',
          'The tests run on a mock device that executes nothing.',
          [S + 'RunnableGraph.cpp'], [('running', S + 'RunnableGraph.cpp: RunnableGraph::run')], (), ['content of images'])
     , 'What a command buffer computes is decided by the shaders, the driver and the device, none of which is in the source; what is decided is which commands are recorded, in which order and between which barriers (C01 to C08, C18 to C23).'),
    (prop('C91', 'Reported times are those the passes take',
          'The processor and device times reported for a pass differ from the time it really took only by the precision of the clocks.',
          ['schedules', 'histories'], 'every run of every graph',
          'Tests cannot know the real duration either, and the mock device returns constant timestamps.',
          [S + 'FramePassTimer.cpp'], [('timer', S + 'FramePassTimer.cpp: FramePassTimer::retrieveGpuTime')], (), ['reported durations'])
     , 'The durations come from clocks at run time; the source only decides which timestamps are written, read and subtracted, and that part is covered by the property about timers.'),
    (prop('C92', 'Concurrent use of one context gives the result of some sequential use',
          'When several threads create, record or run graphs over one context and one resource handler, what they obtain is what some interleaving of whole operations would give.',
          ['schedules'], 'every interleaving of every set of operations',
          'The tests are single-threaded.',
          [S + 'ResourceHandler.cpp', S + 'GraphContext.cpp'], [('locks', S + 'ResourceHandler.cpp')], (), ['handles returned', 'device calls'])
     , 'Linearisability quantifies over interleavings of histories whose effects include those of the device; what a sound static argument reaches is the lock discipline of each shared container and the order of locks, which C11 decides.'),
    (prop('C93', 'Building and recording a graph takes time polynomial in its size',
          'Compiling a graph and recording a frame take a time bounded by a polynomial in the number of passes and attachments.',
          ['programs'], 'every graph',
          'Tests only use graphs of a few passes.',
          [S + 'GraphNodes.cpp', S + 'FrameGraph.cpp'], [('sorting', S + 'FrameGraph.cpp')], (), ['duration of compile'])
     , 'The recursion over the dependencies of a pass is bounded only by the shape of the graph at run time; no sound static bound is in reach of the installed tools.'),
]
