#!/usr/bin/env python3
"""Writes harness/text_scripts.h: command scripts of the text protocol with the replies they must get.
The replies were taken from the server (one connection, everything sent at once) and then reviewed against /repo/docs/ascii-protocol.
Run by hand only; no check runs this."""
import socket, subprocess, time, sys
SC = [
("kv", r"set k 5 0 3\r\nabc\r\nadd k 0 0 1\r\nx\r\nreplace k 6 0 2\r\nxy\r\nappend k 0 0 2\r\nde\r\nprepend k 0 0 1\r\nw\r\nget k\r\ngets k j\r\ndelete k\r\nget k\r\ndelete k\r\nreplace k 0 0 0\r\n\r\nset k 0 0 0\r\n\r\nget k k\r\n"),
("cas", r"cas k 0 0 1 5\r\na\r\nset k 1 0 1\r\na\r\ngets k\r\ncas k 2 0 2 99\r\nbb\r\ncas k 3 0 2 1\r\ncc\r\ngets k\r\n"),
("arith", r"set n 0 0 1\r\n9\r\nincr n 1\r\ndecr n 100\r\nincr m 1\r\nincr m 2 7 0 5\r\nincr m 2\r\nget m n\r\nincr n abc\r\nset n 0 0 1\r\nx\r\nincr n 1\r\ndecr n\r\n"),
("noreply", r"set k 0 0 1 noreply\r\na\r\nadd k 0 0 1 noreply\r\nb\r\nincr k 1 noreply\r\nget k\r\ndelete k noreply\r\ndelete z noreply\r\nget k\r\nlop insert l 0 1 create 0 0 0 noreply\r\na\r\nlop get l 0\r\nflush_all noreply\r\nget l\r\n"),
("badchunk", r"set k 0 0 3\r\nabcde\r\nset k 0 0 3\r\nabcXYget k\r\nlop insert l 0 2\r\nabcdsop insert s 1\r\na\r\nbop insert b 1 2 create 0 0 0\r\nabXYget k\r\nversion\r\n"),
("refused", r"set k 0 0 3 extra\r\nset k 0 0 -1\r\nset k x 0 3\r\nset k 0 0\r\nlop insert k 0 3\r\nabc\r\nlop insert k 0 3 create 0 0 10 x\r\nabc\r\nget k\r\nbop upsert k 1 3\r\nabc\r\nsop exist s 1\r\na\r\nmop update m f 2\r\nab\r\nmop insert m f 2 bad\r\nab\r\nget\r\nfoo\r\n\r\nversion\r\n"),
("list", r"lop create l 3 0 10 error\r\nlop insert l 0 2\r\nbb\r\nlop insert l 0 1\r\na\r\nlop insert l -1 3\r\nccc\r\nlop get l 0..-1\r\nlop get l 1\r\nlop get l 7\r\nlop get l 0..0 delete\r\nlop delete l 5\r\nlop delete l 0..-1 drop\r\nlop get l 0\r\nlop insert l 0 1\r\na\r\nlop create k 0 0 0\r\nset k 0 0 1\r\na\r\n"),
("set", r"sop create s 4 0 0\r\nsop insert s 2\r\nab\r\nsop insert s 2\r\nab\r\nsop exist s 2\r\nab\r\nsop exist s 1\r\na\r\nsop get s 0\r\nsop delete s 1\r\nz\r\nsop delete s 2 drop\r\nab\r\nsop get s 1\r\nsop insert s 1 create 9 0 5\r\nq\r\nsop get s 0 delete\r\nsop get s 0\r\n"),
("map", r"mop create m 7 0 0\r\nmop insert m f 2\r\nab\r\nmop insert m f 2\r\ncd\r\nmop upsert m f 2\r\ncd\r\nmop update m f 3\r\nxyz\r\nmop update m g 1\r\nx\r\nmop get m 1 1\r\nf\r\nmop get m 3 2\r\ng f\r\nmop get m 0 0\r\nmop delete m 1 1\r\ng\r\nmop delete m 1 1 drop\r\nf\r\nmop get m 0 0\r\nmop insert m f 1 create 0 0 0\r\nq\r\n"),
("btree", r"bop create b 5 0 10\r\nbop insert b 10 0x01 2\r\nab\r\nbop insert b 20 1\r\nc\r\nbop insert b 10 1\r\nz\r\nbop upsert b 20 0xFFFF 2\r\ncc\r\nbop update b 10 0x02 -1\r\nbop update b 30 1\r\nx\r\nbop get b 0..100\r\nbop get b 100..0 0 EQ 0x02 0 1\r\nbop get b 10\r\nbop count b 0..100 0 NE 0x02\r\nbop position b 20 asc\r\nbop pwg b 20 desc 1\r\nbop gbp b asc 0..1\r\nbop get b 50..60\r\nbop delete b 10\r\nbop delete b 0..100 5 drop\r\nbop get b 1\r\n"),
("btrim", r"bop create b 0 0 2 smallest_trim\r\nbop insert b 1 1\r\na\r\nbop insert b 2 1\r\nb\r\nbop insert b 3 1 getrim\r\nc\r\nbop get b 0..2\r\nbop get b 0..9\r\nbop insert b 0 1\r\nz\r\nbop create c 0 0 0\r\nbop insert c 0x0A 0xFF 1 getrim\r\na\r\nbop get c 0x00..0xFF delete\r\nbop insert c 1 1\r\n5\r\nbop get c 1 drop\r\n"),
("bincr", r"bop insert b 1 1 create 1 0 0\r\n5\r\nbop incr b 1 10\r\nbop decr b 1 99\r\nbop incr b 2 1\r\nbop incr b 2 1 7 0x01\r\nbop get b 0..9\r\nbop incr b 1 abc\r\nbop incr z 1 1\r\n"),
("bmget", r"bop insert b1 1 1 create 1 0 0\r\na\r\nbop insert b2 2 0x0B 2 create 2 0 0\r\nbb\r\nset k 0 0 1\r\nx\r\nbop mget 9 4 0..9 5\r\nb1 b2 k z\r\nbop smget 7 3 0..9 5 unique\r\nb1 b2 z\r\nbop smget 9 4 0..9 5 unique\r\nb1 b2 k z\r\nbop smget 7 3 0..9 0 5\r\nb1,b2,z\r\nbop smget 5 2 9..0 5 duplicate\r\nb1 b2\r\nbop smget 5 2 0..9 5 unique\r\nb1 b2\r\nbop mget 5 2 0..9 5\r\nb1 b2X\nversion\r\n"),
("mget", r"set k 5 0 3\r\nabc\r\nset j 6 0 0\r\n\r\nmget 5 3\r\nk z j\r\nmgets 3 2\r\nk j\r\nmget 3 3\r\nk j\r\nmget 3 2\r\nk jXX\r\nversion\r\nmget 1 0\r\nmget 0 1\r\nget k z j\r\n"),
("attr", r"set k 5 0 3\r\nabc\r\ngetattr k flags expiretime type\r\ngetattr k count\r\nlop create l 1 0 8 tail_trim\r\ngetattr l\r\nsetattr l maxcount=9 overflowaction=error\r\ngetattr l maxcount overflowaction\r\nsetattr l maxcount=x\r\nsetattr l readable=off\r\nsetattr z expiretime=5\r\ngetattr z\r\ntouch k 0\r\ntouch z 0\r\ngetattr l foo\r\n"),
("pipe", r"lop insert l -1 1 create 0 0 0 pipe\r\na\r\nlop insert l -1 1 pipe\r\nb\r\nlop insert l -1 1\r\nc\r\nlop get l 0..-1\r\nlop insert z 0 1 pipe\r\na\r\nlop insert l 0 1 pipe\r\nz\r\nlop delete l 0\r\nlop get l 0..-1\r\n"),
("pipe2", r"bop insert b 1 1 create 0 0 0 pipe\r\na\r\nsop insert s 1 create 0 0 0 pipe\r\nq\r\nmop insert m f 1 create 0 0 0 pipe\r\nz\r\nbop insert b 2 1 pipe\r\nb\r\nbop delete b 1 pipe\r\nsop exist s 1 pipe\r\nq\r\nsop delete s 1\r\nw\r\nbop get b 0..9\r\nset k 0 0 1\r\na\r\n"),
("pipebad", r"lop insert l 0 1 create 0 0 0 pipe\r\na\r\nlop insert l 0 1 pipe\r\nbXXlop insert l 0 1 pipe\r\nc\r\nlop insert l 0 1\r\nd\r\nversion\r\nlop get l 0..-1\r\n"),
("admin", r"set a:k 0 0 1\r\na\r\nflush_prefix a\r\nflush_prefix b\r\nget a:k\r\nset k 0 0 1\r\na\r\nflush_all\r\nget k\r\nflush_all x\r\nconfig max_list_size\r\nconfig max_element_bytes 99\r\nconfig scrub_count 32\r\nconfig scrub_count\r\nconfig foo\r\nready\r\nstats foo\r\nstats prefix\r\n"),
("scan", r"set p:k1 0 0 1\r\na\r\nscan key x\r\nscan key 0 count 9999\r\nscan foo 0\r\nscan key 0 count 5 match\r\nscan key 0 type Q\r\nscan prefix\r\nversion\r\n"),
("filters", r"bop insert b 1 0x0F 1 create 0 0 0\r\na\r\nbop insert b 2 0x31 1\r\nb\r\nbop insert b 3 1\r\nc\r\nbop get b 0..9 0 & 0x03 EQ 0x03\r\nbop get b 0..9 0 EQ 0x0F,0x01,0x31 0 5\r\nbop count b 0..9 0 NE 0x0F,0x00\r\nbop update b 1 0 | 0xF0 1\r\nq\r\nbop update b 2 0 & 0x0F -1\r\nbop get b 9..0\r\nbop update b 3 0 | 0x01 -1\r\nbop get b 0..9 1 1\r\nbop get b 0..9 0 EQ\r\nbop get b 0..9 0 ^ 0x01 EQ 0xFE delete\r\nbop delete b 0..9 0 GT 0x0F\r\nbop get b 0..9\r\n"),
("smget", r"bop create t1 3 0 2 smallest_trim\r\nbop insert t1 1 1\r\na\r\nbop insert t1 5 1\r\nb\r\nbop insert t1 7 1\r\nc\r\nbop insert t2 6 1 create 4 0 0\r\nd\r\nbop insert t2 7 1\r\ne\r\nbop smget 8 3 9..0 10 duplicate\r\nt1 t2 t3\r\nbop smget 5 2 9..6 10 unique\r\nt1 t2\r\nbop smget 5 2 9..0 1 2 unique\r\nt1 t2\r\nbop smget 5 2 9..0 1 2\r\nt1 t2\r\nbop smget 5 2 9..0 0 0\r\nt1 t2\r\nbop mget 8 3 0..9 0 2\r\nt1 t2 t3\r\nbop mget 5 1 0..9 2\r\nt1 t2\r\nversion\r\n"),
("gat", r"set k 5 0 3\r\nabc\r\nlop create l 0 0 0\r\ngat 100 k j\r\ngetattr k expiretime\r\ngats 0 k\r\ngetattr k expiretime\r\ngat x k\r\ngat 5\r\ngat 0 l k\r\ntouch k 50\r\ngetattr k expiretime\r\ntouch k 0 noreply\r\ngetattr k expiretime\r\n"),
("quit", r"set k 0 0 1\r\na\r\nget k\r\nquit\r\nversion\r\n"),
("pos", r"bop insert b 0x0A 1 create 7 0 0\r\na\r\nbop insert b 0x0B01 0x01 1\r\nb\r\nbop position b 0x0B01 desc\r\nbop position b 0x0B asc\r\nbop position b 1 asc\r\nbop gbp b desc 0\r\nbop gbp b asc 5..9\r\nbop pwg b 0x0A asc 3\r\nbop gbp b foo 0\r\nbop get b 0x00..0xFFFF\r\nbop get b 0..5\r\nlop get b 0\r\n"),
("detail", r"stats detail on\r\nset p:k 0 0 1\r\na\r\nget p:k\r\nget p:z\r\ndelete p:k\r\nstats detail dump\r\nstats detail off\r\nstats detail x\r\nstats detail\r\nstats reset\r\n"),
("long", r"set kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk 4294967295 0 10\r\n0123456789\r\nget kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk\r\nbop insert b 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF 0xEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE 1 create 4294967295 0 0\r\na\r\nbop get b 0x00..0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF\r\nbop insert b 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF 1\r\na\r\nbop pwg b 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF asc\r\nbop insert n 18446744073709551615 0xEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE 1 create 0 0 0\r\na\r\nbop gbp n asc 0\r\nbop smget 1 1 0..18446744073709551615 1 unique\r\nn\r\nbop mget 1 1 0..18446744073709551615 1\r\nn\r\nbop insert n 18446744073709551616 1\r\na\r\n"),
]

def run(script, port):
    p = subprocess.Popen(['/repo/memcached', '-E', '/repo/.libs/default_engine.so', '-p', str(port), '-U', '0', '-u', 'nobody', '-l', '127.0.0.1'], stderr=subprocess.DEVNULL)
    time.sleep(0.3); out = b''
    s = socket.create_connection(('127.0.0.1', port)); s.settimeout(0.3); s.sendall(script.encode('latin1'))
    try:
        while True:
            d = s.recv(65536)
            if not d: break
            out += d
    except socket.timeout: pass
    p.kill(); p.wait(); return out.decode('latin1')
def lit(t): return '"' + t.replace('\\', '\\\\').replace('"', '\\"').replace('\r', '\\r').replace('\n', '\\n') + '"'
if __name__ == '__main__':
    import re
    o = ['/* written by tools/gen_text_scripts.py; replies reviewed against docs/ascii-protocol */', 'static const struct { const char *name, *in, *out; } SCRIPT[] = {']
    for i, (n, t) in enumerate(SC):
        t = t.replace('\\r', '\r').replace('\\n', '\n'); r = run(t, 21400 + i)
        r = re.sub(r'VERSION [^\r]*', '\0', r); r = '" VERSION "'.join([x for x in lit(r).split('\0')]).replace('" VERSION "', 'VERSION " VERSION "')
        o.append('{ "%s", %s,\n  %s },' % (n, lit(t), r))
        print('=====', n); print(run(t, 21450 + i).replace('\r', ''), end='')
    o.append('};')
    open('/verif/harness/text_scripts.h', 'w').write('\n'.join(o) + '\n')
