import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import core
try:
    rc = core.main(sys.argv[1:])
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
os._exit(rc)
