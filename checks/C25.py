from vlib import Check, Job
H = 'harness/ring.c'
A = ['-Dmalloc=h_malloc', '-Drealloc=h_realloc', '-Dcalloc=h_calloc', '-DENABLE_CLUSTER_AWARE']
def J(name, mode, defs=(), **k): return Job(name, H, ['cluster_config.c@harness/shadow_md5'], ['-DH_MODE=%d' % mode] + A + list(defs), time=100, **k)
check = Check('C25', [
  J('spread', 0, ['-DH_LAYOUT=0', '-DH_NSETS=1'], thorough_defs=['-DH_NSETS=4'], reach=['end'], bounds='1 node (thorough: sets of 1-4 nodes) with 160 distinct points each, any key hash'),
  J('shared', 0, ['-DH_LAYOUT=1', '-DH_NSETS=6'], reach=['end'], bounds='ring points shared between nodes and repeated within a node'),
  J('ends', 0, ['-DH_LAYOUT=2', '-DH_NSETS=6'], reach=['end'], bounds='ring points at both ends of the hash range'),
  J('history', 1, ['-DH_LAYOUT=3', '-DH_N=3', '-DH_SETBITS=2', '-DH_SETMUL=3'], thorough_defs=['-DH_SETBITS=3', '-DH_SETMUL=1'], reach=['end', 'none'], bounds='3 reconfigurations over sets of 0, 2 and 4 (thorough: any of 3) nodes, then any key hash'),
  J('history4', 1, ['-DH_LAYOUT=1', '-DH_N=2', '-DH_SETBITS=4', '-DH_SETMUL=1'], thorough_defs=['-DH_N=3'], reach=['end', 'none'], bounds='2 (3) reconfigurations over subsets of 4 nodes sharing points'),
  J('oom', 1, ['-DH_LAYOUT=3', '-DH_NN=14', '-DH_N=2', '-DH_SETBITS=2', '-DH_SETMUL=0x1555', '-DH_OOM=1'], thorough_defs=['-DH_N=3', '-DH_FAILS=4'], reach=['end', 'oom', 'none'], bounds='sets of up to 14 nodes with the n-th memory request failing'),
  J('many', 2, ['-DH_NN=16'], thorough_defs=['-DH_ADD=3'], reach=['end'], bounds='9-13 nodes turning over to any other range of up to 16'),
], 'cluster_config.c; MD5 replaced by a harness-chosen digest so that ring points can coincide and the key hash is any 32-bit value.', assumptions=['MD5 itself (rfc1321/md5c.c) is outside this check', 'node names are distinct and shorter than 128 characters'])
