import sys; sys.path.insert(0, __file__.rsplit('/', 1)[0])
from pers import *
def T(name, kinds, ops, defs=[], **k): return J(name, BIG + ['-DH_KINDS={%s}' % kinds, '-DH_KEYS={"a:x"}'] + defs, thorough_defs=['-DH_KEYS={"a:x","b"}', '-DH_N=%d' % k.pop('n', 2)], reach=['log cut', 'recovered', 'recovered again', 'end'] + ['op ' + o for o in ops], bounds='every history of two operations of 13 on one key (thorough: two keys) behind two insertions; the log ends at any byte of them; a further operation and a second recovery', **k)
C = ['-DH_MODE=M_CRASHAT', '-DH_PRE=1']; CR = ['recovered', 'end']
check = Check('C19', [
  J('kv', BIG + ['-DH_KINDS={KV}'], reach=['log cut', 'recovered', 'recovered again', 'end'] + ['op ' + o for o in 'ABCDEFGHIJKLM'], thorough_defs=['-DH_PRE=1', '-DH_N=3'], bounds='every history of two (thorough three) operations of 13 on two keys behind two stores; the log ends at any byte of them; a further operation and a second recovery'),
  T('list', 'LIST', 'ABDEFGHIJKLM'), T('set', 'SET', 'ABDEFGHIJKLM'), T('map', 'MAP', 'ABDEFGHIJKLM'), T('btree', 'BTREE', 'ABDEFGHIJKLM'),
  J('trim', BIG + ['-DH_KINDS={LIST,BTREE}', '-DH_MAXC=2', '-DH_KEYS={"a:x"}'], thorough_defs=['-DH_KEYS={"a:x","b"}'], reach=['log cut inside an operation', 'recovered again', 'end'], bounds='the same with collections of at most two elements, so that insertions remove others (two records, one operation)'),
  J('tail', BIG + ['-DH_KINDS={KV}', '-DH_N=1', '-DH_OPS=(1u<<O_A)', '-DH_VL={60,3}', '-DH_SYMV=60', '-DH_PRE=1'], thorough_defs=['-DH_N=2'], reach=['log cut', 'recovered again', 'end'], bounds='a store of 60 unknown bytes cut at any byte and overwritten by a shorter record: nothing of the old tail is read again'),
  J('shut', BIG + ['-DH_KINDS={KV}', '-DH_MODE=M_SHUT', '-DH_ASYNC=1', '-DH_PRE=1', '-DH_N=1', '-DH_VL={90}', '-DH_OPS=(1u<<O_A)', '-DH_KEYS={"a:x"}', '-DH_POST=0', '-DH_EXPLORE=2', '-DVERIF_CMDLOG_FLUSH_SIZE=64'], thorough_defs=['-DH_EXPLORE=3'], reach=['orderly shutdown', 'recovered', 'end'], bounds='asynchronous logging, orderly shutdown, 2 (3) preemptions of the flusher and the shutdown'),
  J('exp', BIG + ['-DH_KINDS={KV,LIST,BTREE}', '-DH_MODE=M_SHUT', '-DH_EXP=55', '-DH_PRE=1', '-DH_POST=0', '-DH_KEYS={"a:x"}'], reach=['gap', 'orderly shutdown', 'recovered', 'end'], bounds='items with lifetimes, some over when the server is started again'),
  J('extend', BIG + ['-DH_KINDS={KV,LIST,BTREE}', '-DH_MODE=M_SHUT', '-DH_EXP=55', '-DH_PRE=0', '-DH_POST=0', '-DH_KEYS={"a:x"}', '-DH_KNOWN=1'], reach=[], bounds='the same histories, those in which setattr lengthens a lifetime'),
  J('crash', BIG + C + ['-DH_KINDS={KV}', '-DH_N=1', '-DH_CHKPT=1', '-DH_CRASHN=40', '-DH_POST=1'], thorough_defs=['-DH_N=2', '-DH_CRASHN=80'], reach=CR + ['dies on the way', 'recovered again'], bounds='the server dies at any of the first 40 (80) file operations - logging, checkpoint, snapshot, switching and removing files - and unsynchronised data survive up to any byte'),
  J('crashcoll', BIG + C + ['-DH_KINDS={LIST,SET,MAP,BTREE}', '-DH_KEYS={"a:x"}', '-DH_N=1', '-DH_CHKPT=1', '-DH_CRASHN=30', '-DH_POST=1'], only='thorough', reach=CR + ['dies on the way', 'recovered again'], bounds='the same with collections'),
  J('fail', BIG + C + ['-DH_KINDS={KV}', '-DH_N=2', '-DH_OPS=(1u<<O_A|1u<<O_D)', '-DH_CHKPT=2', '-DH_CRASHN=1', '-DH_CRASH0=1000', '-DH_POST=1', '-DH_FAILS=2'], reach=CR + ['snapshot write fails', 'recovered again', 'third checkpoint'], bounds='the first 0-2 snapshot writes fail; three checkpoints'),
  J('sweep', BIG + C + ['-DH_KINDS={KV}', '-DH_N=2', '-DH_OPS=(1u<<O_A)', '-DH_CHKPT=2', '-DH_CRASHN=1', '-DH_CRASH0=1000', '-DH_POST=1', '-DH_FAILU=1', '-DH_KEYS={"a:x"}'], reach=CR + ['a file is not removed', 'recovered again'], bounds='removing one old file fails'),
  J('conc', BIG + C + ['-DH_KINDS={LIST}', '-DH_N=1', '-DH_OPS=(1u<<O_A|1u<<O_D)', '-DH_CHKPT=1', '-DH_CRASHN=8', '-DH_POST=0', '-DH_EXPLORE=1', '-DH_KEYS={"a:x"}'], thorough_defs=['-DH_CRASHN=60'], reach=CR, bounds='one preemption among the worker, the flusher and the checkpoint thread, death at any of the first 8 (60) file operations'),
], 'histories of operations through the engine with persistence on over a file system model; the server dies at a point that is an input, a new engine recovers: it must hold exactly the state behind the last completely logged operation (or, for deaths during operation, any state between the last acknowledged and the last started operation), and logging must continue correctly.', assumptions=AS)
