from vlib import Check, Job, ENG
H = 'harness/scan.c'
def J(name, mode, defs=(), **k): return Job(name, H, ENG, ['-DH_MODE=%s' % mode, '-DVERIF_ASSOC_HASHPOWER=1'] + list(defs), time=100, **k)
check = Check('C17', [
  J('index', 'M_INDEX', ['-DH_KEYS=6', '-DH_FREE=4', '-DH_N=4'], thorough_defs=['-DH_FREE=6', '-DH_N=5'], reach=['end', 'insert'], bounds='6 keys with any hash of 4 (fully equal hashes included), 4 changes'),
  J('index8', 'M_INDEX', ['-DH_KEYS=9', '-DH_PRE=6', '-DH_FREE=2', '-DH_N=3', '-DH_HASHES={0,1,2,4,7,3,6,5}'], thorough_defs=['-DH_N=5'], reach=['end', 'insert'], bounds='9 keys across two growth steps'),
  J('keyscan', 'M_KEYSCAN', ['-DH_KEYS=7', '-DH_PRE=5', '-DH_FREE=3', '-DH_N=2'], thorough_defs=['-DH_N=4', '-DH_FREE=5'], reach=['end', 'scanned', 'continued', 'insert'], bounds='cursor scans with count 1, 2, 3 or 5 and 2 (thorough 4) changes between steps'),
  J('keyscan7', 'M_KEYSCAN', ['-DH_KEYS=9', '-DH_PRE=6', '-DH_FREE=2', '-DH_N=2', '-DH_HASHES={0,1,2,4,7,3,6,5}'], thorough_defs=['-DH_N=3'], reach=['end', 'scanned', 'continued', 'insert'], bounds='the same across the second growth step'),
  J('filter', 'M_KEYSCAN', ['-DH_KEYS=4', '-DH_PRE=4', '-DH_FREE=3', '-DH_N=1', '-DH_FILTER=1'], reach=['end', 'scanned', 'continued'], bounds='types, patterns, expired and internal items'),
  J('prefix', 'M_PREFIX', ['-DH_KEYS=6', '-DH_PRE=4', '-DH_FREE=0', '-DH_N=1'], reach=['end', 'scanned', 'continued'], bounds='prefix scans: 5 prefixes with any of 4 hashes and the null prefix, counts 50 to 300'),
  J('iter', 'M_ITER', ['-DH_KEYS=7', '-DH_PRE=4', '-DH_FREE=2', '-DH_N=3', '-DH_PFX=1'], thorough_defs=['-DH_N=4', '-DH_FREE=3'], reach=['end', 'scanned', 'continued', 'insert'], bounds='snapshot iteration with 1-3 items per step and 3 (thorough 4) changes between steps'),
  J('iter5', 'M_ITER', ['-DH_KEYS=8', '-DH_PRE=5', '-DH_FREE=1', '-DH_N=3', '-DH_CLOSE=1', '-DH_HASHES={0,2,4,6,1}'], thorough_defs=['-DH_N=4', '-DH_FREE=2'], reach=['end', 'scanned', 'continued', 'insert', 'closed early'], bounds='the same with long chains, and iterations closed early'),
  J('full', 'M_FULL', ['-DH_KEYS=1'], reach=['scanned'], bounds='scans with counts 201-2000 of 300 keys'),
  J('long', 'M_LONG', ['-DH_KEYS=1'], reach=['scanned'], bounds='hash chains longer than the room for the results (memory safety only), at 22 index sizes'),
  J('scrub', 'M_SCRUB', ['-DH_KEYS=6', '-DH_PRE=4', '-DH_FREE=2', '-DH_N=1'], thorough_defs=['-DH_FREE=4'], reach=['end', 'scrubbed'], bounds='the scrubber removes exactly the expired items, with keys added meanwhile'),
], 'The real engine with a hash table of 2 buckets (grows at the 4th and 7th key); the hash of every key is an input; exact lookup, key scans, prefix scans, snapshot iteration and the scrubber under key set changes between steps.', assumptions=['initial hash table size reduced by the VERIF_ASSOC_HASHPOWER hook (65536 buckets otherwise)'])
