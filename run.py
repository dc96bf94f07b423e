#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough]: decide one property on /repo's current tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import framework
import threading
def go():
    global rc
    try:
        rc = framework.main(sys.argv[1:])
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
threading.stack_size(512 * 1024 * 1024)
import resource
resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
rc = 2
t = threading.Thread(target=go); t.start(); t.join()
sys.stdout.flush()
sys.exit(rc)
