import sys; sys.path.insert(0, __file__.rsplit('/', 1)[0])
from pers import *
KV = ['-DH_KINDS={KV}', '-DH_KEYS={"a:x"}', '-DH_OPS=(1u<<O_A)', '-DH_PRE=1', '-DH_POST=0'] + SMALL
DU = ['-DH_KINDS={LIST}', '-DH_MODE=M_CRASHAT', '-DH_PRE=2', '-DH_N=1', '-DH_OPS=(1u<<O_A|1u<<O_D|1u<<O_H)', '-DH_CONC=8', '-DH_POST=0', '-DH_KEYS={"a:x"}', '-DVERIF_CMDLOG_BUFFER_SIZE=1000', '-DVERIF_CMDLOG_FLUSH_SIZE=64']
check = Check('C20', [
  J('wrap', KV + ['-DH_MODE=M_SHUT', '-DH_ASYNC=1', '-DH_N=5', '-DH_TICKS=1', '-DH_VL={3,30,75}'], thorough_defs=['-DH_N=6'], reach=['orderly shutdown', 'recovered', 'end'], bounds='5 (6) records of three sizes through a buffer of 300 bytes and flush requests of 64, the flusher running between any of them or not; every wrap-around position'),
  J('ack', KV + ['-DH_MODE=M_CRASHAT', '-DH_N=4', '-DH_CRASHN=24', '-DH_VL={3,75}'], thorough_defs=['-DH_N=6', '-DH_CRASHN=40'], reach=['dies on the way', 'recovered', 'end'], bounds='4 (6) records of two sizes, death at any of the first 24 (40) file operations: what was answered is in the file'),
  J('threads', KV + ['-DH_MODE=M_CRASHAT', '-DH_N=2', '-DH_VL={3,75}', '-DH_EXPLORE=1', '-DH_CRASHN=16'], thorough_defs=['-DH_EXPLORE=2'], reach=['dies on the way', 'recovered', 'end'], bounds='the same with 2 records and one (two) preemptions between the writer and the flusher'),
  J('dual', DU + ['-DH_CRASHN=1', '-DH_CRASH0=1000', '-DH_EXPLORE=1'], thorough_defs=['-DH_EXPLORE=2'], reach=['second checkpoint', 'recovered', 'end'], bounds='an operation while a checkpoint is at any of its steps, one (two) preemptions: its records are in the files recovery reads'),
  J('dualcrash', DU + ['-DH_CRASHN=40', '-DH_EXPLORE=1'], only='thorough', reach=['second checkpoint', 'dies on the way', 'recovered', 'end'], bounds='the same with death at any of the first 40 file operations'),
], 'records of chosen sizes go through the real buffer, flush requests, flusher thread and file layer; the bytes in the file are read back by the real recovery and must give the state of the records in order, and no operation may be answered before its records are on the disk.', assumptions=AS)
