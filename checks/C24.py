import sys; sys.path.insert(0, __file__.rsplit('/', 1)[0])
from srv import job
from vlib import Check
H = 'harness/bin.c'
check = Check('C24', [
  job('headers', H, ['-DMODE=0', '-DSRV_SHOW', '-DSRV_OUT=40000'], time=200, thorough_time=1800, reach=['end'], bounds='every opcode; any extras length; keys of 0-65535 bytes (8 lengths); 9 body lengths to 4 GB'),
  job('extras', H, ['-DMODE=1', '-DSRV_SHOW', '-DLO=0', '-DHI=20'], time=200, thorough_time=1800, reach=['end'], bounds='20 commands with any extras on items of every type'),
  job('values', H, ['-DMODE=2', '-DSTEPS=2', '-DSRV_SHOW'], thorough_defs=['-DSTEPS=3'], time=200, thorough_time=1800, reach=['end', 'read', 'refused'], bounds='2 (thorough 3) key-value requests on 2 keys: any opaque, any flags, any 0-2 data bytes, loud or quiet, no, right or stale cas'),
  job('scripts', H, ['-DMODE=3', '-DRM=9', '-DWM=9', '-DSRV_SHOW', '-DSRV_OUT=40000'], thorough_defs=['-DRM=60', '-DWM=60'], time=200, thorough_time=1800, reach=['end'], bounds='17 scripts that use every command, cut in two at any byte (the long two at every 97th), or read or written in pieces of 1-9 bytes'),
  job('memory', H, ['-DMODE=4', '-DNF=30', '-DNFS=25', '-DSRV_SHOW', '-DSRV_OUT=40000'], thorough_defs=['-DNF=100', '-DNFS=60'], time=200, thorough_time=1800, reach=['end'], bounds='the n-th malloc (n < 30) or item allocation (n < 25) of each script fails'),
  job('gone', H, ['-DMODE=5', '-DSRV_SHOW', '-DSRV_OUT=40000'], time=200, thorough_time=1800, reach=['end'], bounds='the client of each script closes after any byte, or one of its first 4 sends fails'),
], 'the real main() with thread.c and the default engine under a modelled event loop and sockets; a client sends binary requests and the responses are compared with docs/binary protocol.',
 assumptions=['libevent and sockets are stand-ins; one worker thread at a time', 'keys are hashed by their length'])
