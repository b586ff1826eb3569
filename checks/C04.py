from vlib import Check, Job, ENG
R = ['hit', 'miss', 'end', 'time']
check = Check('C04', [
  Job('expiry', 'harness/kv.c', ENG, ['-DH_N=3', '-DH_K=1', '-DH_EXP', '-DH_CFG="sticky_limit=1000000"', '-DH_VMAX=0', '-DH_OPS=(O_SET|O_ADD|O_TIME|O_SETEXP|O_GET|O_APPEND|O_COLL)'], reach=R + ['setexp', 'coll'], time=60, bounds='3 operations (thorough 4) on one key with any 32-bit expiry times, clock steps of 1..70000 s', thorough_defs=['-UH_N', '-DH_N=4']),
  Job('flush', 'harness/kv.c', ENG, ['-DH_N=4', '-DH_K=1', '-DH_VMAX=0', '-DH_DELAY', '-DH_OPS=(O_SET|O_TIME|O_FLUSH|O_GET)'], reach=R + ['flush'], time=60, bounds='4 operations (thorough 5) on one key: set, get, flush_all (immediate, in the past, delayed by 1..70000 s), clock steps of 1..70000 s', thorough_defs=['-UH_N', '-DH_N=5']),
  Job('prefix', 'harness/kv.c', ENG, ['-DH_N=3', '-DH_K=4', '-DH_VMAX=0', '-DH_DELAY', '-DH_PRELOAD', '-DH_NAMES={"a:k","a:b:k","ab:k","k"}', '-DH_OPS=(O_SET|O_TIME|O_FLUSHP|O_FLUSH)'], reach=R + ['flush', 'flushp'], time=60, bounds='3 operations (thorough 4) over four stored keys with equal, look-alike and null prefixes; prefix flushes immediate or delayed by 1..70000 s', thorough_defs=['-UH_N', '-DH_N=4']),
], 'histories of 4-5 (thorough 6) operations, any 32-bit expiry, delays and clock steps up to 70000 s')
