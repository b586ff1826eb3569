from vlib import Check, Job, ENG
H = 'harness/slab.c'
LIM = '-DH_CFG="cache_size=4194304"'
check = Check('C15', [
  Job('cls', H, ENG, ['-DH_CLS'], reach=['zero', 'toobig', 'class'], time=60, bounds='every 32-bit size under seven configurations'),
  Job('size', H, ENG, ['-DH_SIZE', '-DH_RES={4}'], thorough_defs=['-DH_RES={0,1,2,3,4,5,6,7}'], reach=['end'], time=100, bounds='every slot length of the small-memory manager, freed and reallocated between two neighbours'),
  Job('tiny', H, ENG, ['-DH_HIST', '-DH_N=6', '-DH_SIZES={1,37,45,61}'], thorough_defs=['-DH_N=7'], reach=['free', 'end'], time=100, bounds='6 (thorough 7) operations, slots of 32-72 bytes'),
  Job('mix', H, ENG, ['-DH_HIST', '-DH_N=5', '-DH_SIZES={20,1020,1021,9000}', '-DH_PRE={300,1100,40,2100}'], thorough_defs=['-DH_N=6'], reach=['free', 'end'], time=100, bounds='5 (thorough 6) operations over mixed sizes with four blocks in use before'),
  Job('large', H, ENG, ['-DH_HIST', '-DH_N=6', '-DH_SIZES={49148,49149,200000,1048576}'], thorough_defs=['-DH_N=7'], reach=['free', 'end'], time=100, bounds='6 (thorough 7) operations, largest slots and slab classes'),
  Job('pressure', H, ENG, ['-DH_HIST', '-DH_N=5', '-DH_FREEMAX=4', '-DH_SIZES={60,1000,40000}', '-DH_CFG="cache_size=16777216"', '-DH_PRE={40000,40000,40000,40000,40000,40000,30000,20,700,700,40000,40000,40000,40000,40000,40000,900}'], thorough_defs=['-DH_N=6', '-DH_FREEMAX=6'], reach=['free', 'end'], time=100, bounds='5 (thorough 6) operations after filling more than one block'),
  Job('merge', H, ENG, ['-DH_MERGE=16'], reach=['end'], time=60, bounds='16 neighbours; any run of 2-3 freed in any order'),
  Job('merge40', H, ENG, ['-DH_MERGE=40'], reach=['end'], time=60, bounds='40 neighbours; any run of 2-3 freed in any order'),
  Job('limit', H, ENG, ['-DH_LIMIT', LIM, '-DH_SIZES={49148,31740}', '-DH_RSV=(8<<20)', '-DH_MINCNT=40'], reach=['full', 'end', 'raised'], time=60, bounds='4 MB limit filled with small-memory blocks'),
  Job('limitslab', H, ENG, ['-DH_LIMIT', LIM, '-DH_SIZES={60000,524289,1048576}', '-DH_RSV=(8<<20)', '-DH_MINCNT=3'], reach=['full', 'end'], time=60, bounds='4 MB limit filled with chunks of one slab class'),
  Job('prealloc', H, ENG, ['-DH_LIMIT', '-DH_CFG="cache_size=6291456;preallocate=true"', '-DH_PREALLOC', '-DH_SIZES={49148,31740,60000,1048576}', '-DH_RSV=0', '-DH_MINCNT=4'], reach=['full', 'end'], time=60, bounds='6 MB allocated up front and filled'),
], 'Allocate/free histories over the real slab and small-memory allocator.')
