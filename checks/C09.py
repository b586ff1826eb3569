from vlib import Check, Job, ENG
T4 = ['-DVERIF_BTREE_ITEM_COUNT=4']
H = 'harness/btree.c'
P = '-DH_OPS=(B_POS|B_PWG|B_GBP)'
R = ['end', 'pos', 'pwg', 'gbp']
check = Check('C09', [
  Job('small', H, ENG, ['-DH_MK', '-DH_N=1', '-DH_PRES={0,1,3}', '-DH_SYMPRE', P], reach=R, time=90, bounds='0, 1 or 3 elements with arbitrary 64-bit bkeys, all positions 0-255, both orders'),
  Job('after', H, ENG, ['-DH_MK', '-DH_N=2', '-DH_PRES={2}', '-DH_SYMPRE', '-DH_SEQ={B_INS|B_DEL|B_GETDEL,B_POS|B_PWG|B_GBP}'], reach=R, time=90, bounds='positions after an insertion or deletion of arbitrary bkeys'),
  Job('tree', H, ENG, T4 + ['-DH_MK', '-DH_N=1', '-DH_PRES={18}', '-DH_ORDERS={0,1,2,3}', '-DH_BIGC=9', P], reach=R, time=90, bounds='nodes of 4 entries (hook): 18 elements, three levels, four insertion orders'),
  Job('treeop', H, ENG, T4 + ['-DH_MK', '-DH_N=2', '-DH_PRES={14}', '-DH_ORDERS={0,3}', '-DH_BIGC=6', '-DH_SEQ={B_INS|B_DEL,B_POS|B_PWG}', '-DH_WIN={{9,11},{59,62},{139,141}}'], reach=['end', 'pos', 'pwg'], time=120, thorough_defs=['-UH_WIN', '-DH_WIN={{9,62},{120,141}}'], bounds='positions after an insertion or range deletion that splits or merges nodes'),
  Job('gbpop', H, ENG, T4 + ['-DH_MK', '-DH_N=2', '-DH_PRES={14}', '-DH_ORDERS={3}', '-DH_SEQ={B_INS|B_DEL,B_GBP}', '-DH_WIN={{10,11},{60,61}}'], reach=['end', 'gbp'], time=120, bounds='elements between any two positions after an insertion or range deletion that splits or merges nodes'),
  Job('bin', H, ENG, ['-DH_MK', '-DH_N=1', '-DH_PRES={2}', '-DH_SYMPRE', '-DH_BIN', P], reach=R, time=90, bounds='binary bkeys of 1-2 arbitrary bytes'),
  Job('node32', H, ENG, ['-DH_MK', '-DH_CAP=80', '-DH_N=1', '-DH_PRES={70}', '-DH_ORDERS={0,3}', '-DH_BIGC=40', '-DH_VERIFY=1', '-DH_OPS=(B_POS|B_PWG)'], reach=['end', 'pos', 'pwg'], time=120, bounds='unchanged node size: 70 elements'),
], 'Rank of an element, neighbours around a rank, and elements between two ranks, for every bkey / position and tree shape listed per job.', assumptions=['node size 4 in the jobs marked (hook)'])
