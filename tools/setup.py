"""setup_cmd: nothing to build; checks that the simulator can load the code under test."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import boot  # noqa: E402

boot.boot()
print('ready: %d tools from %s' % (len(boot.MODULES), boot.REPO), flush=True)
os._exit(0)
