from vlib import Check, Job, ENG
H = 'harness/attr.c'
check = Check('C12', [
  Job('set1', H, ENG, ['-DH_ELEMS=2', '-DH_IDS=1'], reach=['end', 'set', 'setexp', 'setrange', 'badattr', 'badvalue', 'binrange'], time=120, bounds='every item type with 0-2 elements, one setattr of at most one attribute, all values symbolic'),
  Job('set2', H, ENG, ['-DH_ELEMS=1', '-DH_IDS=2', '-DH_EXPS=2', '-DH_KINDS={KV,MAP,BTREE}'], thorough_defs=['-DH_EXPS=3', '-DH_KINDS={KV,LIST,SET,MAP,BTREE}'], reach=['end', 'set', 'setexp', 'setrange', 'badattr', 'badvalue'], time=120, bounds='one setattr of up to two attributes'),
  Job('seq', H, ENG, ['-DH_ELEMS=1', '-DH_IDS=1', '-DH_ROUNDS=2', '-DH_EXPS=1', '-DH_KINDS={BTREE}'], thorough_defs=['-DH_EXPS=3', '-DH_KINDS={KV,LIST,MAP,BTREE}'], reach=['end', 'set', 'badvalue'], time=120, thorough_time=600, bounds='two setattr in a row'),
  Job('limits', H, ENG, ['-DH_ELEMS=1', '-DH_IDS=1', '-DH_GROW', '-DH_KINDS={LIST,SET,MAP,BTREE}', '-DH_CFG="cache_size=8388608;sticky_limit=1048576;max_list_size=20000;max_set_size=20000;max_map_size=20000;max_btree_size=20000"', '-DH_MAXSZ=20000'], reach=['end', 'set', 'grown', 'badvalue'], time=120, bounds='configured maximum sizes, raised at run time'),
], 'getattr/setattr of every item type against an abstract attribute record')
