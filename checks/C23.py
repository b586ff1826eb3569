import sys; sys.path.insert(0, __file__.rsplit('/', 1)[0])
from srv import job
from vlib import Check
H = 'harness/text.c'
check = Check('C23', [
  job('values', H, ['-DH_MODE=0', '-DMODE=0', '-DSTEPS=2','-DSRV_SHOW'], thorough_defs=['-DSTEPS=3'], time=120, thorough_time=1200, reach=['end'], bounds='2 (thorough 3) key-value requests on 2 keys: any flags, any 0-2 data bytes, noreply, cas numbers read by gets'),
  job('scripts', H, ['-DMODE=1', '-DRM=9', '-DWM=9','-DSRV_SHOW'], thorough_defs=['-DRM=40', '-DWM=40', '-DTWO=120'], time=200, thorough_time=1800, reach=['end'], bounds='27 scripts that use every documented command, cut in two at any byte, or read in pieces of 1-9 bytes, or written in pieces of 1-9 bytes'),
  job('lines', H, ['-DMODE=2', '-DSLOT=2', '-DSRV_SHOW'], thorough_defs=['-DSLOT=3'], time=200, thorough_time=1800, reach=['end'], bounds='68 command lines, one word of which is replaced by, or continued with, up to 2 (3) arbitrary bytes'),
  job('memory', H, ['-DMODE=3', '-DNF=40', '-DNFS=25', '-DSRV_SHOW'], thorough_defs=['-DNF=120', '-DNFS=60'], time=200, thorough_time=1800, reach=['end'], bounds='the n-th malloc (n < 40) or item allocation (n < 25) of each script fails'),
  job('gone', H, ['-DMODE=4', '-DSRV_SHOW'], time=200, thorough_time=1800, reach=['end'], bounds='the client of each script closes after any byte, or one of its first 4 sends fails'),
  job('limits', H, ['-DMODE=5', '-DSRV_SHOW', '-DSRV_OUT=70000'], time=200, thorough_time=1800, reach=['end'], bounds='keys to 16001 bytes, values to 2 MB, lines to 64 KB, lists to 3000 keys, 501 piped commands, 200 compare values, 400 words'),
], 'the real main() with thread.c and the default engine under a modelled event loop and sockets; a client sends text and the replies are compared with docs/ascii-protocol.',
 assumptions=['libevent and sockets are stand-ins; one worker thread at a time', 'keys are hashed by their length'])
