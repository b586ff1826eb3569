from vlib import Check, Job
U = ['util.c']
check = Check('C21', [
  Job('num', 'harness/util_parse.c', U, ['-DH_MODE=1', '-DH_LEN=5'], reach=['accept', 'reject', 'end'], time=60, bounds='every string of up to 5 arbitrary bytes, all four integer parsers', thorough_defs=['-DH_LEN=6']),
  Job('numlimit', 'harness/util_parse.c', U, ['-DH_MODE=2', '-DH_LEN=2'], reach=['accept', 'reject', 'only-64', 'only-s64', 'end'], time=60, bounds='13 limit magnitudes (2^31, 2^32, 2^63, 2^64 neighbourhoods, 20 and 21 digits) with the last 2 digits symbolic, optional sign, optional tail', thorough_defs=['-UH_LEN', '-DH_LEN=3']),
  Job('hex', 'harness/util_parse.c', U, ['-DH_MODE=3', '-DH_LEN=4'], reach=['accept', 'reject'], time=60, bounds='hex text of up to 4 arbitrary bytes into buffers of 1..3 bytes', thorough_defs=['-UH_LEN', '-DH_LEN=6']),
  Job('name', 'harness/util_parse.c', U, ['-DH_MODE=4', '-DH_LEN=4'], reach=['accept', 'reject'], time=60, bounds='names of 1..4 arbitrary bytes', thorough_defs=['-UH_LEN', '-DH_LEN=8']),
  Job('glob', 'harness/util_parse.c', U, ['-DH_MODE=5', '-DH_LEN=3'], reach=['match', 'nomatch'], time=60, bounds='valid patterns of 1..4 arbitrary bytes against texts of 0..3 arbitrary bytes', thorough_defs=['-UH_LEN', '-DH_LEN=5', '-DH_PL=5']),
], 'integer texts to 5 arbitrary bytes and limit neighbourhoods to 21 digits; hex to 4 digits; names to 4 bytes; patterns 4 x texts 3',
 ['strtol family and isspace/isdigit follow the C locale (modelled in rt/rt.c, cross-checked natively against glibc)', 'safe_strtof (floating point) is outside the encoding'])
