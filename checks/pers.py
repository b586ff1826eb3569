from vlib import Check, Job, ENG, VERIF
SRC = [s for s in ENG if not s.endswith('/slabs.c')]
SZ = ['-DENABLE_PERSISTENCE', '-DVERIF_LOG_RECORD_SIZE=4096', '-DVERIF_SNAPSHOT_BUFFER_SIZE=1024', '-DVERIF_ASSOC_HASHPOWER=4', '-include', VERIF + '/harness/wrap_persist.h', '-DH_HARNESS']
BIG = ['-DVERIF_CMDLOG_BUFFER_SIZE=16384']; SMALL = ['-DVERIF_CMDLOG_BUFFER_SIZE=300', '-DVERIF_CMDLOG_FLUSH_SIZE=64']
def J(name, defs, time=100, **k): return Job(name, 'harness/persist.c', SRC, SZ + defs, extra=['harness/slabs_stub.c'], time=time, thorough_time=1800, **k)
AS = ['the file system is a model (files, descriptors, unsynchronised data survive a crash up to any byte); the slab allocator keeps its contract (C15)', 'log buffer and log record size are reduced with the hooks VERIF_CMDLOG_BUFFER_SIZE, VERIF_LOG_RECORD_SIZE, VERIF_SNAPSHOT_BUFFER_SIZE, VERIF_CMDLOG_FLUSH_SIZE']
