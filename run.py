#!/usr/bin/env python3
import sys, os, importlib.util
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V); sys.dont_write_bytecode = True
import vlib
def load(pid):
    spec = importlib.util.spec_from_file_location(pid, '%s/checks/%s.py' % (V, pid)); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m.check
if __name__ == '__main__':
    if sys.argv[1] == 'setup': vlib.ensure_symx(); print('symx built'); sys.exit(0)
    sys.exit(load(sys.argv[1]).main(sys.argv[2:]))
