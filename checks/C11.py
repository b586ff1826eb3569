from vlib import Check, Job, ENG
T4 = ['-DVERIF_BTREE_ITEM_COUNT=4']
H = 'harness/smget.c'
OVS = '-DH_OVS={OVFL_ERROR,OVFL_SMALLEST_TRIM,OVFL_LARGEST_TRIM}'
check = Check('C11', [
  Job('merge2', H, ENG, ['-DH_NT=2', '-DH_MODES=2', '-DH_NS={1,2}', '-DH_CNT={1,2,4}'], reach=['end', 'unique', 'dupmode', 'same-bkey', 'cut', 'duplicated'], time=120, bounds='two b+trees of 1-2 elements with arbitrary 64-bit bkeys, every range, offsets 0-1, counts 1, 2 and 4'),
  Job('merge3', H, ENG, ['-DH_NT=3', '-DH_MODES=2', '-DH_NS={3}', '-DH_PAT(p,t,i)=((p)==0?10+10*(i):(p)==1?10+10*(i)+(t):(p)==2?10+30*(t)+10*(i):(p)==3?10+10*(i)*(t+1):40-10*(t)+10*(i))', '-DH_NPAT=5', '-DH_OFF={0,1,4}', '-DH_CNT={1,2,5,9}', '-DH_WIN=5,75', '-DH_SAMEPAT'], reach=['end', 'unique', 'dupmode', 'same-bkey', 'cut', 'duplicated'], time=120, bounds='three b+trees of 3 elements in five interleavings (with keys of different lengths), every range over [5,75], offsets 0, 1, 4, counts 1, 2, 5, 9'),
  Job('trim', H, ENG, ['-DH_NT=2', '-DH_MODES=2', '-DH_NS={2}', OVS, '-DH_PAT(p,t,i)=(10+20*(i)+(p)*5*(t))', '-DH_NPAT=3', '-DH_CNT={1,3,4}'], reach=['end', 'trimmed', 'oor'], time=120, bounds='trimmed b+trees, three interleavings, every 64-bit range'),
  Job('trim3', H, ENG, ['-DH_NT=3', '-DH_MODES=2', '-DH_NS={2}', '-DH_OVS={OVFL_SMALLEST_TRIM,OVFL_LARGEST_TRIM}', '-DH_SAMEPAT', '-DH_OFF={0}', '-DH_PAT(p,t,i)=(10+20*(i)+(p)*(t)+(p)/2*5*((t)+(i)))', '-DH_NPAT=3', '-DH_CNT={2,5}', '-DH_WIN=5,60'], reach=['end', 'trimmed', 'oor'], time=120, bounds='three trimmed b+trees, every range over [5,60]'),
  Job('miss', H, ENG, ['-DH_NT=3', '-DH_MODES=2', '-DH_NS={0,1}', '-DH_KINDS={0,1,2,3,4}', '-DH_DUPKEY', '-DH_WRONGTYPE', '-DH_SAMEPAT', '-DH_PAT(p,t,i)=(10+(p)*(t))', '-DH_NPAT=2', '-DH_OFF={0}', '-DH_CNT={4}', '-DH_PTS={5,10}'], thorough_defs=['-DH_PTS={5,10,20}'], reach=['end', 'error', 'dupmode', 'dupkey'], time=120, bounds='absent, unreadable, empty, key-value and list keys, a key named twice, a binary range on 64-bit bkeys'),
  Job('filter', H, ENG, ['-DH_NT=2', '-DH_MODES=2', '-DH_NS={2}', '-DH_FLT', '-DH_OVS={OVFL_ERROR,OVFL_LARGEST_TRIM}', '-DH_SAMEPAT', '-DH_PAT(p,t,i)=(10+20*(i)+(p)*10*(t))', '-DH_NPAT=2', '-DH_OFF={1}', '-DH_CNT={1,4}', '-DH_PTS={5,10,30,50}'], thorough_defs=['-DH_NPAT=3', '-DH_OFF={0,1}'], reach=['end', 'unique', 'dupmode', 'trimmed'], time=120, bounds='element flags and filter value arbitrary'),
  Job('hold', H, ENG, ['-DH_NT=3', '-DH_MODES=2', '-DH_NS={1,2}', '-DH_HOLD', '-DH_SAMEPAT', '-DH_PAT(p,t,i)=(10+20*(i)+(p)*10*(t))', '-DH_NPAT=2', '-DH_OFF={0}', '-DH_CNT={1,4}', '-DH_PTS={5,10,30,50}'], reach=['end', 'unique', 'dupmode', 'held'], time=120, bounds='an item referenced elsewhere during smget'),
  Job('old', H, ENG, ['-DH_NT=2', '-DH_MODES=1', '-DH_OLD', '-DH_NS={2}', OVS, '-DH_PAT(p,t,i)=(10+20*(i)+(p)*5*(t))', '-DH_NPAT=3', '-DH_CNT={1,3,4}'], reach=['end', 'old', 'old-trimmed', 'error'], time=120, bounds='smget without duplicate|unique: two (possibly trimmed) b+trees, every 64-bit range'),
  Job('old3', H, ENG, ['-DH_NT=3', '-DH_MODES=1', '-DH_OLD', '-DH_NS={0,2}', '-DH_KINDS={0,1,2}', '-DH_SAMEPAT', '-DH_DUPKEY', '-DH_PAT(p,t,i)=(10+20*(i)+(p)*10*(t))', '-DH_NPAT=2', '-DH_OFF={0,1}', '-DH_CNT={1,6}', '-DH_PTS={5,10,50}'], thorough_defs=['-DH_NPAT=3', '-DH_CNT={1,2,6}', '-DH_PTS={5,10,30,50,70}'], reach=['end', 'old', 'error', 'dupkey'], time=120, bounds='smget without duplicate|unique: three keys, absent/unreadable/empty ones, a key named twice'),
  Job('bin', H, ENG, ['-DH_NT=2', '-DH_MODES=2', '-DH_BIN', '-DH_NS={2}', '-DH_SAMEPAT', '-DH_PAT(p,t,i)=(10+20*(i)+(p)*(t))', '-DH_NPAT=3', '-DH_CNT={1,4}'], reach=['end', 'unique', 'dupmode'], time=120, bounds='binary bkeys of 1-2 bytes, every one-byte range'),
  Job('nodes', H, ENG, T4 + ['-DH_NT=2', '-DH_MODES=2', '-DH_NS={10}', '-DH_OVS={OVFL_SMALLEST_TRIM,OVFL_LARGEST_TRIM}', '-DH_SAMEPAT', '-DH_PAT(p,t,i)=(10+10*(i)+(p)*5*(t))', '-DH_NPAT=3', '-DH_OFF={0,9}', '-DH_CNT={3,20}', '-DH_PTS={5,10,35,38,45,70,105,110,125}'], reach=['end', 'unique', 'dupmode', 'trimmed'], time=120, bounds='nodes of 4 entries (hook): 10 elements each, ranges over [5,125]'),
], 'Sort-merge get over 2-3 b+trees: merged order, ties, offset/count, duplicate and unique modes, missed and trimmed keys; the result array has exactly the size the server allocates.', assumptions=['node size 4 in the job marked (hook)'])
