from vlib import Job, VERIF, ENG
SRV = ['memcached.c', 'thread.c', 'stats_prefix.c', 'mc_util.c', 'topkeys.c', 'cmdlog.c', 'lqdetect.c', 'cache.c', 'sasl_defs.c'] + [s for s in ENG if not s.endswith('/slabs.c')]
R = ['malloc', 'calloc', 'realloc', 'strdup', 'read', 'write', 'close', 'pipe', 'sendmsg', 'fcntl', 'getpeername', 'inet_ntoa', 'getrlimit', 'getrusage', 'setrlimit', 'getuid', 'geteuid', 'signal', 'sigaction', 'getenv', 'gettimeofday', 'time']
DEFS = ['-D%s=h_%s' % (r, r) for r in R] + ['-DVALGRIND', '-Dmain=mc_main', '-DVERIF_ASSOC_HASHPOWER=4']
def job(name, harness, defs=(), srcs=SRV, extra=('harness/slabs_stub.c',), **k): return Job(name, harness, srcs, DEFS + list(defs), extra=list(extra), **k)
