import sys; sys.path.insert(0, __file__.rsplit('/', 1)[0])
from pers import *
D = BIG + ['-DH_RICH', '-DH_CHKPT=1', '-DH_KEYS={NULL}']; R = ['end', 'changed', 'setattr', 'snapshot taken']
B = ': flags (32 bits), lifetime, value and name bytes are inputs; key lengths 1-23, value lengths 0-8; one change of the item afterwards; recovered from the log, from a snapshot, or from a snapshot and the log behind it'
check = Check('C18', [
  J('kv', D + ['-DH_KINDS={KV}'], reach=R, bounds='a key-value item' + B),
  J('list', D + ['-DH_KINDS={LIST}'], reach=R, bounds='a list of two elements' + B),
  J('set', D + ['-DH_KINDS={SET}'], reach=R, bounds='a set of two elements' + B),
  J('map', D + ['-DH_KINDS={MAP}'], reach=R, bounds='a map of two elements, field lengths 1-30' + B),
  J('btree', D + ['-DH_KINDS={BTREE}'], time=150, reach=R + ['filtered range deletion'], bounds='a b+tree of two elements, bkeys numeric or of 1-31 bytes, eflags of 0-31 bytes, range deletions in both directions with filters, counts and offsets' + B),
  J('trimmark', D + ['-DH_KINDS={BTREE}', '-DH_KNOWN=1'], reach=[], bounds='the histories in which an insertion is refused as out of range'),
], 'one item of every shape is stored and changed through the engine with persistence on, the server dies, a second engine recovers from the files: all attributes, bytes, CAS and elements must be the same.', assumptions=AS)
