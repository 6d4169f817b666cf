import os
import sys
import traceback

from mc.harness import main

try:
    rc = main(sys.argv[1], sys.argv[2:])
except Exception:
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
os._exit(rc)
