import sys; sys.path.insert(0, __file__.rsplit('/', 1)[0])
import srv
from vlib import Check
H = 'harness/auth.c'
SRCS = [s for s in srv.SRV if s != 'sasl_defs.c'] + ['ascii_scrub.c']
D = ['-Darcus_sasl_authz=h_authz', '-DSRV_SHOW', '-DSRV_OUT=30000'] + ['-D%s=h_%s' % (x, x) for x in ('dlopen', 'dlsym', 'dlerror', 'dlclose')]
def job(name, defs=(), **k): return srv.job(name, H, D + list(defs), srcs=SRCS, **k)
check = Check('C28', [
  job('lists', ['-DMODE=0', '-DASCII_SASL', '-DNB=4', '-DNW=3', '-DH_ENV'], thorough_defs=['-DNB=6', '-DNW=4'], time=200, thorough_time=1800, reach=['end', 'nolist'], bounds='access lists of any 0-4 (thorough 6) bytes, of up to 2 (3) words, or with a word one edit away from a known one'),
  job('text', ['-DMODE=1', '-DASCII_SASL', '-DLO=0', '-DHI=200'], time=300, thorough_time=1800, reach=['end', 'refused', 'ran', 'public'], bounds='76 commands x 9 histories of authentication x any privilege mask, with plain and exempt keys'),
  job('binary', ['-DMODE=2'], time=300, thorough_time=1800, reach=['end', 'refused', 'ran', 'closed'], bounds='every opcode x 9 histories of authentication x any privilege mask'),
  job('exchange', ['-DMODE=3', '-DASCII_SASL', '-DSTEPS=2'], thorough_defs=['-DSTEPS=3'], time=300, thorough_time=1800, reach=['end', 'ok', 'continue', 'fail', 'read', 'refused', 'malformed'], bounds='2 (thorough 3) requests: mechanisms, start, step, a protected command, malformed; any outcome, data and challenge of 0-2 bytes'),
  job('notext', ['-DMODE=5'], time=200, reach=['end'], bounds='text commands and any 24 bytes that are no binary request, to the server as it is built by default'),
  job('steps', ['-DMODE=6', '-DSTEPS=2'], thorough_defs=['-DSTEPS=3'], time=300, thorough_time=1800, reach=['end', 'ok', 'continue', 'fail', 'read', 'refused', 'malformed'], bounds='2 (thorough 3) binary requests: mechanisms, start, step, protected commands, malformed; any outcome, data and challenge of 0-2 bytes'),
  job('memory', ['-DMODE=4', '-DASCII_SASL', '-DNF=30'], time=200, thorough_time=1800, reach=['end', 'memory', 'gone'], bounds='the n-th malloc (n < 30) fails, or the client leaves after any byte'),
], 'the real main() with -S, thread.c, sasl_defs.c (access lists compiled in), the scrub extension and the default engine; clients in every state of authentication send every command.',
 assumptions=['libevent, sockets and Cyrus SASL are stand-ins; the SASL library answers OK, CONTINUE or an error as the solver picks', 'the source of the access lists (ZooKeeper) is a stand-in'])
