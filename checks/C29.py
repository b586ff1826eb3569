from vlib import Check, Job
H = 'harness/worker.c'
A = ['-Dmalloc=h_malloc', '-Drealloc=h_realloc', '-Dcalloc=h_calloc', '-Dstrdup=h_strdup']
def C(name, mode, defs=(), **k): return Job(name, H, ['cache.c'], ['-DH_MODE=%d' % mode] + A + list(defs), time=100, **k)
def T(name, mode, defs=(), **k): return Job(name, H, ['thread.c', 'cache.c'], ['-DH_MODE=%d' % mode, '-Dread=h_read', '-Dwrite=h_write', '-Dclose=h_close', '-Dpipe=h_pipe'] + A + list(defs), time=100, **k)
check = Check('C29', [
  C('objects', 0, ['-DH_N0=2', '-DH_STEPS=6'], thorough_defs=['-DH_STEPS=8'], reach=['end', 'refused', 'no cache'], bounds='6 (thorough 8) operations on a cache with memory and constructor failures'),
  C('full', 0, ['-DH_N0=66', '-DH_KEEP=2', '-DH_STEPS=5'], thorough_defs=['-DH_STEPS=6'], reach=['end', 'short'], bounds='5 (6) operations around the growth of the free list'),
  C('users', 1, ['-DH_PRE=3'], thorough_defs=['-DH_PRE=5'], reach=['end'], bounds='two threads, up to 3 (5) preemptions at lock operations'),
  T('handoff', 10, ['-DH_NT=1', '-DH_N=3', '-DH_PRE=2'], thorough_defs=['-DH_PRE=4'], reach=['end', 'all', 'left in queue'], bounds='3 connections to 1 worker, up to 2 (4) preemptions'),
  T('handoff2', 10, ['-DH_NT=2', '-DH_N=3', '-DH_PRE=2'], thorough_defs=['-DH_PRE=3'], reach=['end', 'all', 'left in queue'], bounds='3 connections to 2 workers'),
  T('io', 11, ['-DH_C=1', '-DH_R=2', '-DH_K=2', '-DH_PRE=2'], thorough_defs=['-DH_PRE=4'], reach=['end', 'blocked', 'not blocked'], bounds='1 connection, 2 requests with 1-2 completions each, before or after the wait begins, up to 2 (4) preemptions'),
  T('io1', 11, ['-DH_C=1', '-DH_R=1', '-DH_K=1', '-DH_PRE=4'], thorough_defs=['-DH_PRE=6'], reach=['end', 'blocked', 'not blocked'], bounds='one request, up to 4 (6) preemptions'),
  T('io2', 11, ['-DH_C=2', '-DH_R=1', '-DH_K=2', '-DH_PRE=2'], thorough_defs=['-DH_PRE=4'], reach=['end', 'blocked', 'not blocked'], bounds='2 connections of one worker'),
  T('sums', 12, reach=['end'], bounds='any value of every counter of a worker'),
], 'thread.c and cache.c under a modelled libevent and notify pipe; the thread schedule at lock operations is an input.', assumptions=['threads are preempted at lock, condition and pipe operations only'])
