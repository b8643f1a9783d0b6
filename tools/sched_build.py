"""Builds groot's sources with the threads, atomics, locks and queues of harness/sched in place of the real ones."""
import os
import build as B

H = os.path.join(B.VERIF, 'harness')
FLAGS = ['-std=c++17', '-O1', '-w', '-DSCHED', '-I' + H + '/sched/concurrentqueue', '-I/opt/vp/include/concurrentqueue',
         '-I' + B.REPO + '/src', '-include', H + '/sched/prelude.h', '-finstrument-functions', '-fsanitize=thread',
         '-finstrument-functions-exclude-file-list=/usr/,/opt/,/harness/,bits/,ext/']


def submit(ex, hdr):
    extra = b''.join(B._read(os.path.join(H, 'sched', f)) for f in ('prelude.h', 'runtime.h', 'concurrentqueue/concurrentqueue.h'))
    jobs = [ex.submit(B.compile_one, s, FLAGS, hdr, extra) for s in B.lib_sources() + [H + '/observe.cpp']]
    jobs.append(ex.submit(B.compile_one, H + '/sched/runtime.cpp', ['-std=c++17', '-O2', '-w', '-fno-threadsafe-statics', '-D_GNU_SOURCE'], '', extra))
    return jobs
