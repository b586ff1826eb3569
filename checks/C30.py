from vlib import Check, Job, VERIF, ENG
H = 'harness/config.c'
F = ['-Dfopen=h_fopen', '-Dfgets=h_fgets', '-Dfclose=h_fclose']
def P(name, mode, defs=(), **k): return Job(name, H, ['config_parser.c', 'util.c'], ['-DH_MODE=%d' % mode] + F + list(defs), time=100, **k)
check = Check('C30', [
  P('text', 0, ['-DH_LEN=6'], thorough_defs=['-DH_LEN=8'], thorough_time=600, reach=['end', 'accepted', 'refused', 'unknown'], bounds='every text of up to 6 (thorough 8) bytes 1..127'),
  P('parts', 1, ['-DH_PARTS=1'], thorough_defs=['-DH_PARTS=2'], thorough_time=600, reach=['end', 'accepted', 'refused', 'unknown'], bounds='one (thorough two) settings composed of 7 keys, 15 values and white space at every place'),
  P('numbers', 2, reach=['end', 'accepted', 'refused'], bounds='13 magnitudes around the limits of the type for every suffix, the last two digits free'),
  P('long', 3, reach=['end', 'accepted', 'refused'], bounds='keys of 78 to 81 and values of 1010 to 1025 characters, plain or all escapes, with white space around them'),
  P('file', 4, ['-DH_FILELINES=2', '-DH_LEN=3'], thorough_defs=['-DH_FILELINES=2', '-DH_LEN=5'], thorough_time=600, reach=['end', 'accepted', 'refused', 'unknown'], bounds='configuration files of up to 2 lines, among them lines of arbitrary bytes'),
  P('longline', 5, ['-DH_FILELINES=2'], reach=['end', 'accepted', 'long line'], bounds='lines of 1015 to 1040 characters'),
  Job('start', 'harness/config_eng.c', ENG, ['-DH_MODE=0'], time=100, reach=['refused', 'started'], bounds='every value of every two of the six limits'),
  Job('runtime', 'harness/config_eng.c', ENG, ['-DH_MODE=1', '-DH_STEPS=2'], thorough_defs=['-UH_STEPS', '-DH_STEPS=3'], thorough_time=600, time=120, reach=['end', 'taken', 'refused', 'memlimit', 'limit'], bounds='2 (thorough 3) changes of any setting to any value'),
], 'config_parser.c with every text up to the bound')
