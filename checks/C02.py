from vlib import Check, Job, ENG
H = 'harness/arith.c'
check = Check('C02', [
  Job('values', H, ENG, ['-DH_MODE=1', '-DH_LEN=2'], reach=['num', 'nan', 'end'], time=90, bounds='every value of 0..2 (thorough 0..4) arbitrary bytes stored over memory holding 10 arbitrary bytes; every 64-bit delta, incr and decr', thorough_defs=['-UH_LEN', '-DH_LEN=4']),
  Job('limits', H, ENG, ['-DH_MODE=2', '-DH_LEN=1'], reach=['num', 'big', 'wrap', 'floor', 'end'], time=90, bounds='10 boundary magnitudes with the last digit symbolic; every 64-bit delta', thorough_defs=['-UH_LEN', '-DH_LEN=3']),
  Job('create', H, ENG, ['-DH_MODE=3'], reach=['create', 'end'], time=90, bounds='initial values in four ranges around digit-count and 64-bit limits (thorough: every 64-bit initial value), every 64-bit delta, miss, create and a second update', thorough_defs=['-DH_ALL']),
  Job('expire', H, ENG, ['-DH_MODE=4'], reach=['expired', 'end'], time=60, bounds='8-bit initial value, every 64-bit delta, every expiry in a 16-bit range, the clock on both sides of it; incr/decr of the four collection types'),
], 'one counter item, up to 2 updates; values to 3 arbitrary bytes and to 30 digits around the limits')
