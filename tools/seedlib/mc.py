import subprocess, socket, time, os, sys, re
class MC:
    def __init__(self, args=(), eng='default_engine'):
        for attempt in range(5):
            s = socket.socket(); s.bind(('127.0.0.1', 0)); self.port = s.getsockname()[1]; s.close()
            self.p = subprocess.Popen(['./memcached', '-E', './.libs/%s.so' % eng, '-l', '127.0.0.1', '-p', str(self.port), '-U', '0', '-u', 'root'] + list(args), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for _ in range(100):
                try: self.s = self.sock(); return
                except OSError: time.sleep(0.05)
                if self.p.poll() is not None: break
        raise SystemExit('cannot start server')
    def sock(self):
        s = socket.create_connection(('127.0.0.1', self.port), 20); return s
    def cmd(self, line, data=None, s=None):
        """sends one command (with an optional data block), returns the reply up to its final line"""
        s = s or self.s
        s.sendall(line.encode('latin1') + b'\r\n' + (b'' if data is None else data.encode('latin1') + b'\r\n'))
        return self.reply(s)
    def reply(self, s):
        buf = b''
        while True:
            try: d = s.recv(65536)
            except socket.timeout: return buf.decode('latin1') + '<timeout>'
            if not d: return buf.decode('latin1') + '<closed>'
            buf += d
            if buf.endswith(b'\r\n'):
                L = buf.decode('latin1').split('\r\n'); first = L[0]; last = L[-2]
                if first.startswith(('VALUE ', 'STAT ', 'ATTR ', 'PREFIX ')) or first in ('ELEMENTS', 'MISSED_KEYS'):
                    if re.match(r'(END|TRIMMED|DELETED|DELETED_DROPPED|DUPLICATED|DUPLICATED_TRIMMED|TRIM_END|TYPE_MISMATCH|OUT_OF_RANGE|SERVER_ERROR.*|CLIENT_ERROR.*)$', last): return buf.decode('latin1')
                    continue
                return buf.decode('latin1')
    def stop(self):
        self.p.kill(); self.p.wait()
def run(steps, args=()):
    """steps: (line, data, expected regex or None)"""
    m = MC(args); bad = 0
    try:
        for line, data, exp in steps:
            r = m.cmd(line, data)
            if exp is not None and not re.fullmatch(exp, r, re.S):
                print('FAIL %r -> %r, expected %r' % (line, r, exp)); bad = 1; break
    finally: m.stop()
    sys.exit(bad)
