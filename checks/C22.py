from vlib import Check, Job
H = 'harness/tok.c'
def J(name, mode, defs=(), **k): return Job(name, H, ['mc_util.c'], ['-DH_MODE=%d' % mode, '-Dmalloc=h_malloc', '-Drealloc=h_realloc'] + list(defs), time=100, **k)
check = Check('C22', [
  J('command', 0, ['-DH_LEN=9'], thorough_defs=['-DH_LEN=14'], reach=['end', 'more'], bounds='every command line of up to 9 (thorough 14) bytes, token arrays of 2-4'),
  J('detokenize', 1, reach=['joined', 'short'], bounds='joining 1-3 tokens into any buffer length'),
  J('keys', 2, ['-DH_LEN=9'], thorough_defs=['-DH_LEN=12'], reach=['accepted', 'refused'], bounds='every key list of up to 9 (12) bytes'),
  J('blocks8', 3, ['-DH_LEN=11', '-DH_BODY=8'], thorough_defs=['-DH_LEN=13'], reach=['end', 'accepted', 'refused'], bounds='every key list of up to 11 (13) bytes in blocks of 8 bytes'),
  J('blocks4', 3, ['-DH_LEN=11', '-DH_BODY=4', '-DH_MAXK=1'], thorough_defs=['-DH_LEN=13'], reach=['end', 'accepted', 'refused'], bounds='blocks of 4 bytes, keys of at most 1'),
  J('blocks5', 3, ['-DH_LEN=11', '-DH_BODY=5', '-DH_MAXK=2'], thorough_defs=['-DH_LEN=13'], reach=['end', 'accepted', 'refused'], bounds='blocks of 5 bytes, keys of at most 2'),
  J('blocks6', 3, ['-DH_LEN=12', '-DH_BODY=6', '-DH_MAXK=3'], thorough_defs=['-DH_LEN=14'], reach=['end', 'accepted', 'refused'], bounds='blocks of 6 bytes, keys of at most 3'),
  J('oom', 3, ['-DH_LEN=8', '-DH_BODY=5', '-DH_MAXK=2', '-DH_OOM=1'], reach=['end', 'accepted', 'refused', 'out of memory', 'no pool', 'no blocks'], bounds='the same with the n-th allocation failing'),
  J('many', 3, ['-DH_MANY=1050', '-DH_BODY=8'], reach=['end', 'accepted', 'refused'], bounds='lists of 1050-1070 bytes over 132 blocks (more straddling keys than one batch)'),
  J('many6', 3, ['-DH_MANY=800', '-DH_BODY=6', '-DH_MAXK=3'], reach=['end', 'accepted', 'refused'], bounds='the same with blocks of 6 bytes'),
  J('pools', 4, ['-DH_BODY=6', '-DH_STEPS=3'], thorough_defs=['-DH_STEPS=5'], reach=['end', 'merged'], bounds='3 (thorough 5) operations on 3 block lists'),
  J('tokens', 5, reach=['end', 'no tokens'], bounds='the token buffer at 6 sizes, with memory failures'),
], 'mc_util.c: the text, announced count, block size and memory failures are inputs; the oracle splits the text independently.')
