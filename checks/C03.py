from vlib import Check, Job, ENG
R = ['hit', 'miss', 'end', 'cas-ok', 'cas-stale', 'delcas-ok', 'delcas-stale', 'appcas-stale', 'arith']
O = '(O_SET|O_ADD|O_REPLACE|O_CAS|O_DEL|O_DELCAS|O_APPCAS|O_ARITH|O_GET)'
check = Check('C03', [
  Job('hist', 'harness/kv.c', ENG, ['-DH_N=3', '-DH_OPS=' + O, '-DH_VMAX=1', '-DH_DIGITS'], reach=R, time=90, bounds='3 operations (thorough 4) on keys "a" and "a:b"; the CAS argument is any 64-bit value', thorough_defs=['-UH_N', '-DH_N=4']),
  Job('coll', 'harness/kv.c', ENG, ['-DH_N=3', '-DH_K=1', '-DH_OPS=(O_SET|O_CAS|O_DELCAS|O_COLL|O_DEL|O_ADD|O_ARITH)', '-DH_VMAX=1', '-DH_DIGITS'], reach=['coll', 'end'], time=60, bounds='3 operations with collections on one key', thorough_defs=['-UH_N', '-DH_N=4']),
], 'histories of 3 (thorough 4) modifications on two keys, every 64-bit CAS argument')
